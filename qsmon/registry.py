"""Per property: number of workers, the rule behind the cases, and the least
the monitors must have seen for a verdict (else the run is inconclusive).
Every ``variants``-th case (by default every third) is run once more with one of
its drawn values changed."""

REGISTRY = {
    "C01": dict(
        workers=8,
        rule="Random histories of 1-3 basis changes on every kind of basis set "
        "(custom elements, random, 1D, sinc-DVR 2d/4d, 2D, molecular), with and "
        "without spin, raw or through a system, with 13 kinds of coefficient "
        "matrices and 4 kinds of bra coefficients.",
        minimum={"change-basis": 200, "covariance:spin_x": 100, "rectangular": 30},
    ),
    "C02": dict(
        workers=8,
        rule="Systems over every kind of basis set, changed with dual, adjoint or "
        "occupied/virtual-block coefficients and back; expectation values with "
        "random one- and two-body density matrices, densities, generalized "
        "spectra, reference energies and Fock matrices before and after.",
        minimum={"expectation:u": 100, "density": 50, "reference-energy": 50, "spectrum": 50, "round-trip:h": 100},
    ),
    "C03": dict(
        workers=8,
        rule="Every kind of basis set doubled directly, by a general system or "
        "from a spatial system, in default, permuted, real and complex spin "
        "bases, with bra functions read before or not.",
        minimum={"doubling:u": 200, "doubling:bra_spf": 200, "compact-form": 5, "second-conversion": 200},
    ),
    "C04": dict(
        workers=8,
        rule="Random histories of conversions, explicit requests, system "
        "constructions, basis changes and copies, judged after every step "
        "against a model which tracks the elements and the flag.",
        minimum={"flag": 600, "anti-symmetry": 500, "op:explicit": 50, "op:copy-system": 50},
    ),
    "C05": dict(
        workers=8,
        rule="Spin-doubled basis sets of every kind in random spin bases, "
        "orthonormal or not, before and after basis changes; small ones as exact "
        "operators on the Fock space.",
        minimum={"commutator": 300, "many-body": 40, "determinants": 50, "non-orthonormal": 20},
    ),
    "C06": dict(
        workers=8,
        rule="General and spatial systems with none, some and all functions "
        "occupied, own and foreign elements, with and without output array; small "
        "ones against the determinant in Fock space.",
        minimum={"energy": 300, "fock-out": 1000, "fock-space": 20, "n:none": 30, "n:all": 30},
    ),
    "C07": dict(
        workers=8,
        rule="Real and complex functions in 1-3 dimensions, explicit bra "
        "functions, arbitrary and Hermitian density matrices, with and without "
        "coefficients, against the defining double sum at every point.",
        minimum={"density": 500, "density-C": 500, "integral": 30, "spin-sum": 30},
    ),
    "C08": dict(
        workers=8,
        rule="Laser fields, custom one-body operators, adiabatic switching and users' own operators "
        "with constant and recording time functions on every kind of system, "
        "over random time sequences, re-used and replaced operators, basis "
        "changes and copies.",
        minimum={"h_t": 1500, "u_t": 1500, "exact-time": 300, "reused-operator": 30},
    ),
    "C09": dict(
        workers=8,
        rule="Copies (also of copies) of basis sets and systems of every kind with "
        "any operator; then operations and in-place modification of every array "
        "of one while the other is watched, and a shared-memory scan.",
        minimum={"no-shared-memory": 5000, "independent:h": 400, "operated-on:copy": 50, "operated-on:original": 50},
    ),
    "C10": dict(
        workers=8,
        rule="General systems constructed from spatial systems of every kind with "
        "any operator and spin basis; energies, Fock matrices, densities and "
        "time-dependent elements of both compared.",
        minimum={"energy": 200, "energy_t": 400, "fock": 200, "direct:u": 100},
    ),
    "C11": dict(
        workers=8,
        rule="Shapes and partition checked after every step of random histories; "
        "random selections of wrongly shaped assignments, occupations and spin "
        "functions which have to be refused without effect.",
        minimum={"refused-assignment": 3000, "partition": 2000, "refused-spin-functions": 200, "refused-odd": 200},
    ),
    "C12": dict(
        workers=8,
        rule="Histories of casts and module changes to a stand-in module with "
        "its own array type, mixed with basis changes, spin doubling and copies, "
        "against a twin that never changed type.",
        minimum={"passed-through": 1000, "cast-values:h": 100, "later:u": 300},
    ),
    "C13": dict(
        variants=1,
        workers=8,
        rule="One-dimensional dots over all potentials (also user functions and "
        "the default), random extents, 4-139 grid points and 1 to all basis "
        "functions, against the finite-difference operator applied to each "
        "function and an independent tridiagonal solver.",
        minimum={"eigenvalue-equation": 200, "energies": 200, "all-states": 10},
    ),
    "C14": dict(
        variants=1,
        workers=8,
        rule="Dots and oscillators with random interaction parameters (also "
        "negative, zero and default) on short, long, coarse and fine grids, "
        "against a dense double trapezoidal sum.",
        minimum={"interaction": 200, "dipole": 100, "beta": 30},
    ),
    "C15": dict(
        variants=1,
        workers=8,
        rule="Oscillators of random frequency and size on fine and coarse grids "
        "against the stable Hermite recurrence, ladder-operator matrices and grid "
        "integration.",
        minimum={"functions": 150, "laser": 150, "grid-energy": 80, "beta": 50},
    ),
    "C16": dict(
        variants=1,
        workers=4,
        rule="Every potential with random and default parameters at random and "
        "characteristic positions (minima, kinks, walls), arrays and scalars, "
        "against its formula and five-point differences.",
        minimum={"value": 500, "derivative": 500, "kink": 60, "landmark": 400},
    ),
    "C17": dict(
        variants=1,
        workers=8,
        rule="Sinc-DVR over all potentials, sizes 2-39, both storages, random "
        "and default parameters against the formulas; spectra of the oscillator "
        "and the Poeschl-Teller well on fine grids.",
        minimum={"h": 250, "interaction": 250, "spectrum": 6},
    ),
    "C18": dict(
        workers=8,
        rule="Twin sinc-DVR bases in both storages driven through equal random "
        "histories (conversions, previews, basis changes, spin, copies, systems, "
        "switching) and compared after each step.",
        minimum={"construct:u": 150, "result:u": 150, "energy": 100, "preview-anti": 100, "own-elements": 50},
    ),
    "C19": dict(
        workers=4,
        rule="All orbital numbers up to 12000 (thorough 200000) and the ends, "
        "middle and random members of random shells up to 1e5 (orbital numbers "
        "up to 5e9), against closed formulas for the label.",
        minimum={"label": 12000, "round-trip": 12000, "random-shell": 40, "one-body": 15},
    ),
    "C20": dict(
        workers=8,
        rule="All elements of the first 1-21 (thorough 28) orbitals, single "
        "elements of random labels up to the eighth shell and |m| <= 12, against "
        "the closed form; and the integral over the basis set's own functions.",
        minimum={"exact": 15, "element": 400, "own-functions": 3, "non-zero": 100, "mirror": 15},
        assumptions=["Rounding of the code's alternating sums grows with the shell; the "
                     "tolerance grows accordingly (1e-11 up to the third shell, a factor of "
                     "20 for each further one)."],
    ),
    "C21": dict(
        variants=1,
        workers=8,
        rule="Random and default frequency, mass, radius, grid and size (1-10 "
        "orbitals) against orbitals, quadratures and closed-form elements.",
        minimum={"functions": 80, "dipole": 80, "interaction": 80, "mass": 20, "omega": 20, "system": 15},
    ),
    "C22": dict(
        variants=1,
        workers=8,
        rule="As C21, with random, zero, default and negative barrier strength "
        "and both axes; Hamiltonian against exact quadratures.",
        minimum={"hamiltonian": 80, "axis:0": 20, "axis:1": 20, "no-barrier": 5, "mass": 20, "rotation": 20},
    ),
    "C23": dict(
        variants=1,
        workers=8,
        rule="As C21 in zero, weak, strong, resonant and negative fields; states "
        "identified by their functions, energies against a brute-force search.",
        minimum={"lowest": 80, "functions": 80, "no-field": 8, "negative-field": 5, "strong": 8},
    ),
    "C24": dict(
        variants=0,
        workers=8,
        env={"NUMBA_DISABLE_JIT": "1"},
        rule="Histories of requests by one and several processes; children "
        "killed at every (thorough) or random source lines and bytes of the "
        "storing path, exceptions injected at lines, full disks at every kind of "
        "position; racing processes and threads with random delays between lines "
        "while the cache files are watched; real compiled processes, some killed.",
        minimum={"same-elements": 100, "crashed": 50, "killed": 20, "concurrent-process": 50,
                 "concurrent-thread": 10, "other-process-after": 150, "compiled-elements": 9},
    ),
    "C25": dict(
        workers=8,
        rule="Thirteen closed-shell atoms, ions and molecules in random geometry, "
        "orientation and position, three basis sets, Cartesian and spherical, with "
        "and without spin; against an independent, tighter RHF calculation, the "
        "integrals in the orbitals observed in the SCF solver, and invariants.",
        minimum={"rhf-energy": 90, "canonical": 90, "orbitals-observed": 0, "cart": 15, "charged": 15,
                 "odd-refused": 10, "spin": 20, "no-spin": 20},
        assumptions=["PySCF's integrals and SCF solver are right; the solver's default "
                     "convergence bounds the accuracy of the orbitals (Fock matrix diagonal "
                     "within 2e-4)."],
    ),
    "C26": dict(
        workers=8,
        rule="The molecules of C25 in atomic orbitals against integrals requested "
        "from PySCF separately (kinetic plus nuclear, explicit nuclear repulsion), "
        "then transformed to RHF orbitals.",
        minimum={"u": 90, "dipole_moment": 90, "rhf-energy": 30, "cart": 10, "charged": 15, "odd-refused": 8},
        assumptions=["PySCF's integrals are right."],
    ),
    "C27": dict(
        workers=8,
        rule="Random basis sets of 1-14 functions in 1-3 dimensions, drawn twice "
        "from equal and from consecutive random states, then transformed.",
        minimum={"same-seed": 1000, "not-repeated": 200, "unitary:exchange": 50, "spin:exchange": 40, "system:exchange": 40},
    ),
    "C28": dict(
        workers=8,
        rule="Histories of steps, added samples and dumps (returned only, to new, "
        "existing, refused, nested, absolute and default places) over eight kinds "
        "of containers of recording samplers which dump in four ways; all stored "
        "files re-read after every dump.",
        minimum={"forwarded-once": 2000, "stored": 1000, "earlier-dump": 1000, "refused-existing": 30, "nothing-written": 100},
    ),
    "C29": dict(
        variants=1,
        workers=8,
        rule="All shipped basis sets and molecular systems with random parameters, "
        "constructed, others constructed in between, constructed again (some also "
        "in a process of their own), then "
        "changed by unitary coefficients and spin.",
        minimum={"construct": 250, "repulsive": 250, "again:h": 250, "alone:h": 60, "unitary:repulsive": 80, "spin:repulsive": 60},
    ),
    "C31": dict(
        variants=1,
        workers=8,
        rule="The same one- and two-dimensional problems in different basis sets, units of "
        "length, mirrored, shifted in energy and in larger basis sets, compared with one another.",
        minimum={"one-body": 300, "two-body": 150, "pair-energies": 100, "dipole": 200, "functions": 120},
    ),
    "C32": dict(
        variants=1,
        workers=8,
        rule="Operations on basis sets, systems, operators, dots, molecules and samplers with all arrays "
        "handed over and the interpreter's, NumPy's and the file system's state fingerprinted before and after.",
        minimum={"surroundings": 10000, "handed-over": 5000},
    ),
    "C30": dict(
        variants=0,
        workers=1,
        rule="About 50 kernel results (2D Coulomb tensors and elements, labels, 1D "
        "interactions, spin doubling) computed serially, again in random order, and "
        "from six threads at once, in nine configurations: interpreted, bounds "
        "checks, 1/3/8 threads, poisoned allocations (two patterns), OpenMP layer, "
        "unoptimized.",
        minimum={"as-interpreted": 250, "as-interpreted:far": 60, "repeated-calls": 250, "concurrent-calls": 300},
        assumptions=["Compiled code agrees with interpreted code within 1e-9 (fast-math)."],
    ),
}
