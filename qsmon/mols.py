"""Molecules for the builders and their integrals, built independently."""

import io
from contextlib import redirect_stdout

import numpy as np
import pyscf
import pyscf.gto
import pyscf.scf

# name -> (atoms with coordinates in bohr, charge, basis sets)
SMALL = ("sto-3g", "6-31g")
LARGE = ("sto-3g", "6-31g", "cc-pvdz")
MOLECULES = {
    "he": ([("he", (0, 0, 0))], 0, LARGE),
    "be": ([("be", (0, 0, 0))], 0, LARGE),
    "ne": ([("ne", (0, 0, 0))], 0, LARGE),
    "h2": ([("h", (0, 0, 0)), ("h", (0, 0, 1.4))], 0, LARGE),
    "lih": ([("li", (0, 0, 0)), ("h", (0, 0, 3.0))], 0, SMALL),
    "hf": ([("h", (0, 0, 0)), ("f", (0, 0, 1.75))], 0, SMALL),
    "h2o": ([("o", (0, 0, 0)), ("h", (0, 1.43, 1.1)), ("h", (0, -1.43, 1.1))], 0, SMALL),
    "heh+": ([("he", (0, 0, 0)), ("h", (0, 0, 1.5))], 1, LARGE),
    "li+": ([("li", (0, 0, 0))], 1, LARGE),
    "h-": ([("h", (0, 0, 0))], -1, SMALL),
    "h3+": ([("h", (0, 0, 0)), ("h", (1.65, 0, 0)), ("h", (0.82, 1.43, 0))], 1, LARGE),
    "beh+": ([("be", (0, 0, 0)), ("h", (0, 0, 2.5))], 1, SMALL),
    "oh-": ([("o", (0, 0, 0)), ("h", (0, 0, 1.83))], -1, SMALL),
    "h2-ghost": ([("h", (0, 0, 0)), ("h", (0, 0, 1.4)), ("ghost-h", (0.9, 0, 0.7))], 0, SMALL),
    # (slow to converge)
    "beo-far": ([("be", (0, 0, 0)), ("o", (0, 0, 5.0))], 0, ("sto-3g",)),
    "lif-far": ([("li", (0, 0, 0)), ("f", (0, 0, 7.0))], 0, ("sto-3g",)),
    "co-far": ([("c", (0, 0, 0)), ("o", (0, 0, 3.5))], 0, ("sto-3g",)),
    "nah": ([("na", (0, 0, 0)), ("h", (0, 0, 3.6))], 0, ("lanl2dz",)),
}


def extra(basis):
    """Further options which go with a basis set (core potentials)."""
    return {"ecp": {"na": "lanl2dz"}} if basis == "lanl2dz" else {}


def rotation(rs):
    q, r = np.linalg.qr(rs.standard_normal((3, 3)))
    return q * np.sign(np.linalg.det(q))


def draw(rs, name=None):
    name = name or list(MOLECULES)[rs.randint(len(MOLECULES))]
    atoms, charge, bases = MOLECULES[name]
    xyz = np.array([a[1] for a in atoms], dtype=float)
    how = rs.randint(3)
    if name.endswith("-far"):
        xyz = xyz * rs.uniform(0.98, 1.02)
    elif len(atoms) > 1:
        xyz = xyz * rs.uniform(0.9, 1.15) + (rs.uniform(-0.1, 0.1, xyz.shape) if how else 0)
    if how == 2 or (how == 1 and len(atoms) == 1):
        xyz = xyz @ rotation(rs).T + rs.uniform(-2, 2, 3)
    sep = ("; ", ";", "\n")[rs.randint(3)]
    gap = (" ", " ", " ", ", ", "\t")[rs.randint(5)]
    label = rs.randint(4) == 0
    spec = sep.join(
        (a[0] if rs.randint(2) else a[0].title()) + (str(i + 1) if label else "") + gap
        + gap.join(repr(float(x)) for x in r)
        for i, (a, r) in enumerate(zip(atoms, xyz))
    )
    return name, spec, charge, bases[rs.randint(len(bases))]


def mole(spec, basis, charge=0, cart=False):
    mol = pyscf.gto.Mole()
    mol.verbose = 0
    with redirect_stdout(io.StringIO()):
        mol.build(atom=spec, basis=basis, charge=charge, cart=cart, unit="B", spin=0, **extra(basis))
    return mol


def integrals(mol, origin):
    l = mol.nao_nr()
    with mol.with_common_orig(tuple(float(x) for x in origin)):
        r = mol.intor("int1e_r")
    eri = mol.intor("int2e", aosym="s1").reshape(l, l, l, l)
    xyz, z = mol.atom_coords(), mol.atom_charges()
    nuc = sum(
        z[i] * z[j] / np.linalg.norm(xyz[i] - xyz[j])
        for i in range(len(z)) for j in range(i)
    )
    return dict(
        h=mol.intor("int1e_kin") + mol.intor("int1e_nuc") + (mol.intor("ECPscalar") if mol.has_ecp() else 0),
        s=mol.intor("int1e_ovlp"),
        u=np.einsum("prqs->pqrs", eri),
        dipole_moment=np.asarray(r).reshape(3, l, l),
        nuc=float(nuc),
        n=int(sum(z)) - mol.charge,
        l=l,
        center=np.einsum("z,zx->x", z, xyz) / np.sum(z),
    )


def rhf(mol):
    mf = pyscf.scf.RHF(mol)
    mf.verbose = 0
    mf.conv_tol = 1e-12
    mf.conv_tol_grad = 1e-8
    mf.max_cycle = 200
    mf.kernel()
    return mf


class CaptureSCF:
    """Observes the orbitals of every SCF calculation that is run."""

    def __enter__(self):
        import pyscf.scf.hf as hf

        self.hf, self.orig, self.seen = hf, hf.kernel, []

        def kernel(mf, *a, **k):
            out = self.orig(mf, *a, **k)
            self.seen.append((bool(out[0]), float(out[1]), np.array(out[2], copy=True), np.array(out[3], copy=True)))
            return out

        hf.kernel = kernel
        return self

    def __exit__(self, *a):
        self.hf.kernel = self.orig


def quietly(fn, *a, **k):
    with redirect_stdout(io.StringIO()):
        return fn(*a, **k)
