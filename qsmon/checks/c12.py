"""Complex cast and array module."""

import copy
import types

import numpy as np

import quantum_systems as qs
from qsmon import gen, ref
from qsmon.checks.common import draw, grow, make_basis, make_system, same_state, seeds, state


class Tagged(np.ndarray):
    """Arrays of the stand-in array module."""

    def __array_finalize__(self, obj):
        pass


class Module:
    """An array module of its own: numpy, except that its arrays are tagged
    and that it counts the arrays passed through it."""

    def __init__(self, tag):
        self.__dict__["_tag"] = tag
        self.__dict__["count"] = 0

    def asarray(self, x, *a, **k):
        self.__dict__["count"] += 1
        r = np.asarray(x, *a, **k).view(Tagged)
        r.tag = self._tag
        return r

    def array(self, x, *a, **k):
        return self.asarray(np.array(x, *a, **k))

    asanyarray = ascontiguousarray = asarray

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(np, name)

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle 'module' object")


def cases(rng, tier):
    n = 1080 if tier == "quick" else 9000
    for c in seeds(rng, n):
        c["kind"] = gen.SPATIAL_KINDS[draw(c, len(gen.SPATIAL_KINDS), "kind")]
        c["spin"] = draw(c, 2, "spin") == 0
        yield c


def all_tagged(mon, b, tag):
    for k in ref.ARRAYS:
        x = getattr(b, k)
        if x is not None:
            mon.true("passed-through", isinstance(x, Tagged) and x.tag == tag, f"{k} is {type(x).__name__}")


def all_complex(mon, b):
    for k in ref.ARRAYS:
        x = getattr(b, k)
        if x is not None:
            mon.equal("complex", x.dtype, np.dtype(np.complex128), k)


def which_set(b):
    return {k: getattr(b, k) is not None for k in ref.ARRAYS}


def types(b):
    return {k: getattr(b, k).dtype for k in ref.ARRAYS if k != "bra_spf" and getattr(b, k) is not None}


def run_case(case, mon, rs):
    opt = {}
    kind = case["kind"]
    if kind == "custom":
        opt["dipole"] = bool(rs.randint(2))
        opt["spf"] = bool(rs.randint(2))
        if not case["spin"] and rs.randint(3) == 0:
            opt["s"] = "none"
    b, bra = make_basis(rs, mon, kind, grow(case, 6, 8, huge=12), case["spin"], **opt)
    if not case["spin"] and rs.randint(4) == 0 and kind == "custom":
        # single precision and integer arrays are legal too
        for k in ("h", "u", "s", "dipole_moment"):
            x = getattr(b, k)
            t = (None, np.float32, np.complex64, np.int64, np.int32)[rs.randint(5)]
            if x is not None and t is not None:
                if np.issubdtype(t, np.integer):
                    x = np.round(5 * x)
                setattr(b, k, (x if t is np.complex64 else x.real).astype(t))
                mon.feature("type:" + t.__name__)
        mon.feature("mixed-types")
    if b.u.ndim == 2 and rs.randint(2):
        b.h = gen.herm(rs, b.l, False)
        mon.feature("own-complex-h")
    # the twin keeps computing in single precision
    tol = 1e-11
    if any(getattr(b, k) is not None and getattr(b, k).dtype in (np.float32, np.complex64) for k in ref.ARRAYS):
        tol = 1e-5
    twin = gen.clone(b)
    obj, tobj = b, twin
    if rs.randint(2):
        n = int(rs.randint(0, b.l + 1))
        obj = make_system(rs, mon, b, n, anti=False)
        tobj = make_system(rs, mon, twin, n, anti=False)
        mon.feature("through-system")
    compact = b.u.ndim == 2
    pre = ref.snapshot(b, touch_bra=False, known_bra=bra)
    was = which_set(twin)
    # cast
    if rs.randint(2):
        mon.call("cast", b.cast_to_complex)
        all_complex(mon, b)
        same_state(mon, "cast-values", ref.snapshot(b), pre)
        mon.equal("cast-only-set", which_set(b), was, "which quantities are set")
        mon.call("cast", b.cast_to_complex)
        same_state(mon, "cast-values", ref.snapshot(b), pre)
        all_complex(mon, b)
        mon.feature("cast")
    # change module
    mod = Module("first")
    if rs.randint(3) == 0:
        kept = types(b)
        mon.call("change-module", obj.change_module, np)
        same_state(mon, "module-values", ref.snapshot(b), pre)
        mon.equal("module-types", types(b), kept, "types of the elements")
    if obj is not b and not compact and rs.randint(4) == 0:
        # the basis set alone first, then the system to the module it has
        other = Module("other")
        had = obj.np
        mon.call("change-module", b.change_module, other)
        mon.true("recorded", b.np is other, "basis set module")
        all_tagged(mon, b, "other")
        mon.call("change-module", obj.change_module, had)
        mon.true("recorded", b.np is had and obj.np is had, "basis set module")
        same_state(mon, "module-values", ref.snapshot(b), pre)
        mon.feature("basis-alone")
    if rs.randint(4):
        kept = types(b)
        tag = np.complex128
        mon.call("change-module", obj.change_module, mod)
        mon.true("recorded", b.np is mod, "basis set module")
        if obj is not b:
            mon.true("recorded", obj.np is mod, "system module")
        if not compact:
            all_tagged(mon, b, "first")
            mon.feature("module-changed")
        same_state(mon, "module-values", ref.snapshot(b), pre)
        mon.equal("module-only-set", which_set(b), was, "which quantities are set")
        mon.equal("module-types", types(b), kept, "types of the elements")
        if rs.randint(3) == 0:
            # the module it has already
            mon.call("change-module", obj.change_module, mod)
            same_state(mon, "module-values", ref.snapshot(b), pre)
            mon.equal("module-types", types(b), kept, "types of the elements")
        if rs.randint(3) == 0:
            mod = Module("second")
            mon.call("change-module", obj.change_module, mod)
            mon.true("recorded", b.np is mod, "basis set module")
            if not compact:
                all_tagged(mon, b, "second")
            same_state(mon, "module-values", ref.snapshot(b), pre)
        if obj is not b:
            mon.equal("sizes", (obj.n, obj.l, obj.m, obj.o, obj.v),
                      (tobj.n, tobj.l, tobj.m, tobj.o, tobj.v), "system sizes")
    # later results are the same as without
    for _ in range(int(rs.randint(1, 4))):
        k = rs.randint(6)
        if k == 0:
            _, _, C, Ct = gen.coefficients(rs, b.l, min_cols=getattr(obj, "n", 1))
            if obj is not b and C.shape[1] < obj.n:
                continue
            mon.call("change-basis", obj.change_basis, C, Ct)
            tobj.change_basis(C, Ct)
        elif k == 1 and not b.includes_spin and b.s is not None and obj is b:
            anti = bool(rs.randint(2))
            mon.call("add-spin", b.change_to_general_orbital_basis, anti_symmetrize=anti)
            twin.change_to_general_orbital_basis(anti_symmetrize=anti)
            all_complex(mon, b)
        elif k == 2 and b.includes_spin:
            mon.call("anti-symmetrize", b.anti_symmetrize_two_body_elements)
            twin.anti_symmetrize_two_body_elements()
        elif k == 3:
            new = mon.call("copy", obj.copy_basis if obj is b else obj.copy_system)
            mon.true("recorded", state(new).np is b.np, "module of the copy")
            obj, b = new, state(new)
        elif k == 4:
            mon.call("cast", b.cast_to_complex)
            all_complex(mon, b)
        else:
            mod = Module(f"m{rs.randint(100)}")
            mon.call("change-module", obj.change_module, mod)
            if b.u.ndim == 4:
                all_tagged(mon, b, mod._tag)
        sc = {k: max(1.0, float(np.max(np.abs(getattr(twin, k)))) if getattr(twin, k) is not None and getattr(twin, k).size else 1.0)
              for k in ref.ARRAYS}
        ref.compare(mon, "later", ref.snapshot(b), ref.snapshot(twin), max(tol, 1e-10), scales=sc)
        for f in ("includes_spin", "anti_symmetrized_u", "l", "dim"):
            mon.equal("later-flags", getattr(b, f), getattr(twin, f), f)
        if b.l > 14:
            break
    if obj is not b and b.u.ndim == 4:
        sc = max(1e-300, float(np.sum(np.abs(twin.h)) + np.sum(np.abs(twin.u))))
        mon.close("later-energy", mon.call("reference-energy", obj.compute_reference_energy),
                  tobj.compute_reference_energy(), tol, "reference energy", sc)
        mon.close("later-fock", mon.call("fock", obj.construct_fock_matrix, obj.h, obj.u),
                  tobj.construct_fock_matrix(tobj.h, tobj.u), tol, "Fock", sc)
    if b.spf is not None and b.spf.dtype == b.bra_spf.dtype and twin.spf.dtype == twin.bra_spf.dtype:
        D = gen.crandn(rs, (b.l, b.l))
        sc = max(1e-300, float(np.sum(np.abs(D)) * np.max(np.abs(twin.spf)) * np.max(np.abs(twin.bra_spf))))
        mon.close("later-density", mon.call("density", obj.compute_particle_density, D),
                  twin.compute_particle_density(D), 1e-11, "density", sc)
    # back to numpy
    mon.call("change-module", obj.change_module, np)
    mon.true("recorded", b.np is np, "numpy again")
    # one array at a time
    x = gen.crandn(rs, (3, 3))
    y = mon.call("change-arr", qs.BasisSet.change_arr_module, x, Module("one"))
    mon.true("passed-through", isinstance(y, Tagged), "change_arr_module")
    mon.close("module-values", y, x, 0, "change_arr_module")
    mon.true("none", qs.BasisSet.change_arr_module(None, Module("one")) is None, "None stays None")
