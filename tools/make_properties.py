"""Writes properties.jsonl (run by hand; the output is committed)."""
import json, os

BS = "quantum_systems/basis_set.py"
SYS = "quantum_systems/system.py"
GOS = "quantum_systems/general_orbital_system.py"
SPA = "quantum_systems/spatial_orbital_system.py"
HLP = "quantum_systems/system_helper.py"
OPS = "quantum_systems/time_evolution_operators/operator.py"
POT = "quantum_systems/quantum_dots/one_dim/one_dim_potentials.py"
OD = "quantum_systems/quantum_dots/one_dim/one_dim_qd.py"
DVR = "quantum_systems/sinc_dvr/one_dim/sinc_dvr.py"
CE = "quantum_systems/quantum_dots/two_dim/coulomb_elements.py"
TDH = "quantum_systems/quantum_dots/two_dim/two_dim_helper.py"
TD = "quantum_systems/quantum_dots/two_dim/two_dim_ho.py"
CUS = "quantum_systems/custom_system.py"
RND = "quantum_systems/random_basis.py"
SAM = "quantum_systems/sampler.py"


def P(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    return {
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
            "mechanism": [dict(name=n, where=w) for n, w in mech],
            "observe_at": observe, "hook_needed": None,
        },
    }


PROPS = [
P("C01", "A change of basis transforms every stored quantity as one tensor",
  "Changing the basis with ket coefficients C and bra coefficients C~ (by default the conjugate transpose of C) turns every one-body quantity (one-body Hamiltonian, overlap, each dipole component, each spin operator) X into C~ X C, every two-body quantity (two-body Hamiltonian, two-body spin-squared) U into (C~ C~) U (C C), the ket functions into C^T spf and the bra functions into C~ bra. This holds for real, complex, rectangular and non-contiguous C, for independently given C~, with and without spin, for every kind of basis set, directly or through a system, and for any sequence of changes; the number of basis functions becomes the number of columns of C. The inputs, the grid, the nuclear repulsion energy and all quantities that are not set stay as they were, and the read-only previews of transformed elements agree with the result without changing anything.",
  ["inputs", "histories", "configurations"], "all basis sets, all coefficient matrices C and C~ of any shape, all sequences of basis changes",
  "The tests transform h and u once, for one random square-ish C per class with C~ = C^dagger; overlap, dipole, bra functions, spin operators, C~ != C^dagger and sequences are never compared.",
  [BS, SYS, DVR], [("change_basis and its helpers", BS), ("2d override of the two-body transformation", DVR), ("system delegation", SYS)],
  ["BasisSet.change_basis", "QuantumSystem.change_basis", "all element properties"],
  [("matrix elements", "h, s, u, dipole, spin, spf held by the basis set", BS)]),
P("C02", "Physical observables do not depend on the basis they are computed in",
  "After an invertible change of basis with the dual (inverse) bra coefficients, expectation values of all one- and two-body operators (Hamiltonian, dipole, spin, spin-squared) for the correspondingly transformed density matrices, the particle density at every grid point, and the generalized spectrum of the one-body Hamiltonian are unchanged. The reference energy is unchanged by any basis change that mixes occupied functions among themselves and virtual functions among themselves, and the Fock matrix then transforms as a one-body operator. Changing basis and changing back restores every quantity.",
  ["inputs", "histories", "configurations"], "all systems, all invertible coefficient matrices, all density matrices",
  "No test evaluates an expectation value, a density or an energy before and after a basis change.",
  [BS, SYS, GOS, SPA, HLP], [("change_basis", BS), ("compute_reference_energy / construct_fock_matrix", GOS), ("compute_particle_density", HLP)],
  ["QuantumSystem.change_basis", "compute_reference_energy", "compute_particle_density", "construct_fock_matrix"]),
P("C03", "Adding spin duplicates each orbital as an interleaved spin-up/spin-down pair",
  "Converting a spatial basis to a general (spin-orbital) basis doubles the number of basis functions so that functions 2p and 2p+1 are spatial orbital p with the first and second spin function: one-body Hamiltonian, overlap and every dipole component get element X[p,q] for equal spins and zero otherwise, the two-body elements get u[p,q,r,s] when spins of p,r and of q,s agree and zero otherwise (before any anti-symmetrization), and ket and bra functions are repeated. This holds for every kind of basis set, for any orthonormal spin basis, whether or not bra functions were set or read before; all resulting elements are complex, and nuclear repulsion energy and grid are unchanged. A basis that already includes spin is left entirely unchanged by a second conversion.",
  ["inputs", "configurations", "histories"], "all spatial basis sets, all orthonormal spin bases, with or without optional quantities, any earlier history",
  "Tests check the static helpers on one random real array each; overlap, dipole and bra functions of a converted basis and repeated conversion are not checked.",
  [BS, DVR, GOS], [("change_to_general_orbital_basis", BS), ("add_spin_* helpers", BS), ("sinc-DVR override", DVR)],
  ["BasisSet.change_to_general_orbital_basis", "GeneralOrbitalSystem"]),
P("C04", "Two-body elements are anti-symmetrized exactly once, and only on request",
  "When anti-symmetrization is requested, the two-body elements become u[p,q,r,s] - u[p,q,s,r], exactly once, however often and through whichever route it is requested (conversion to spin orbitals, building a general system from a spatial or an already spin-including basis, explicit calls, copies, basis changes in between); the two-body spin-squared elements follow along. When it is not requested, or the basis was declared anti-symmetrized already, the elements are left as they are. The reported anti-symmetrized flag always tells the truth, and elements of pair-symmetric interactions that are flagged satisfy u[p,q,r,s] = -u[p,q,s,r] = -u[q,p,r,s] = u[q,p,s,r], also after basis changes.",
  ["histories", "inputs", "configurations"], "all sequences of conversions, system constructions, requests, copies and basis changes on all basis sets",
  "Tests anti-symmetrize once per system; repeated requests, pre-declared elements, requests on copies and anti_symmetrize=False are not exercised.",
  [BS, GOS, SPA, DVR, CUS], [("anti_symmetrize_two_body_elements and its flag", BS), ("GeneralOrbitalSystem.__init__", GOS), ("2d handling", DVR)],
  ["BasisSet.u", "BasisSet.anti_symmetrized_u", "BasisSet.spin_2_tb"],
  [("anti_symmetrized_u", "whether u already holds anti-symmetrized elements", BS)]),
P("C05", "Spin operators represent spin one-half in every spin and orbital basis",
  "After adding spin with any orthonormal spin basis, the spin matrices are one half of overlap times the Pauli matrices expressed in that spin basis; they are Hermitian, obey the spin commutation relations (with the inverse overlap between factors), and the one- and two-body spin-squared elements together are the many-body operator S^2: its eigenvalues are s(s+1), closed-shell determinants have 0 and parallel pairs have 2. This holds for orthonormal and non-orthonormal orbitals, anti-symmetrized or not, and after any basis change. A spin-free Hamiltonian commutes with all spin operators in the many-body space.",
  ["inputs", "configurations", "histories"], "all overlaps, all orthonormal spin bases, all orbital basis changes",
  "Tests use the default spin basis and orthonormal orbitals (the test source says so in a TODO), and never look at the spin operators after a basis change.",
  [BS, GOS], [("setup_pauli_matrices", BS), ("setup_spin_squared_operator", BS), ("transformation of spin operators", BS)],
  ["spin_x, spin_y, spin_z, spin_2, spin_2_tb of basis sets and general systems", "BasisSet.setup_pauli_matrices"]),
P("C06", "Reference energy and Fock matrix are those of the reference determinant",
  "For any number of occupied functions from none to all, the reference energy equals the expectation value of the Hamiltonian in the determinant of the first n functions: h_ii + u_ijij/2 for general orbitals (the expectation value when their elements are anti-symmetrized, and this formula also when they are not), 2 h_ii + 2 u_ijij - u_ijji for spatial orbitals. The Fock matrix built from the passed elements equals h_pq + u_piqi, respectively h_pq + 2 u_piqi - u_piiq, with i over the occupied functions, and half the trace of h plus Fock over occupied functions reproduces the energy. A passed output array is completely overwritten and returned, and neither the passed elements nor the system change.",
  ["inputs", "configurations"], "all matrix elements, all particle numbers, all passed one- and two-body arrays, any content of the output array",
  "One energy (helium, cc-pVDZ) is tested; no test constructs a Fock matrix.",
  [GOS, SPA], [("compute_reference_energy", GOS), ("construct_fock_matrix", SPA)],
  ["compute_reference_energy", "construct_fock_matrix"]),
P("C07", "The particle density is the density matrix contracted with bra and ket",
  "The particle density for a one-body density matrix D is the sum over p, q of bra_p(r) D[q,p] ket_q(r) at every grid point, on the shape of the grid, for real or complex functions (bra and ket alike) and real or complex density matrices. Passing coefficients gives the same density as first changing basis with them, and changes neither the basis set nor the inputs. For functions that are orthonormal on the grid the density integrates to the trace of D, is real for Hermitian D, and the spin-orbital density of a spin-summed D equals the spatial one.",
  ["inputs", "configurations"], "all density matrices, coefficients and basis sets with functions on a grid in one to three dimensions",
  "No test calls the particle density.",
  [HLP, BS, SYS], [("compute_particle_density", HLP), ("coefficient handling", BS)],
  ["QuantumSystem.compute_particle_density", "BasisSet.compute_particle_density"]),
P("C08", "The time-dependent Hamiltonian is the static one plus the operator at time t",
  "At every time, the one-body Hamiltonian of a system with a laser field is h + E(t) times the polarization(t)-weighted dipole, with a custom one-body operator h + w(t) O, otherwise h; the two-body Hamiltonian with adiabatic switching is f(t) u, otherwise u; a user's own operator derived from the base class adds what it defines and leaves the rest static. Constants and functions of time are both accepted for pulse, polarization (default along the first axis), weight and switching function, functions being evaluated at exactly the requested time. The result depends only on the current system, the operator and the time (not on which times were evaluated, or which systems or operators were attached, before; an operator serves the system it was last attached to), follows later basis changes of the system, leaves the static elements untouched, and the one-/two-body indicators tell which part is time dependent.",
  ["inputs", "histories", "configurations"], "all systems, operators, times, and interleavings of queries, basis changes, attaching, replacing and removing operators",
  "No test attaches a time-evolution operator.",
  [OPS, SYS], [("h_t / u_t", OPS), ("set_time_evolution_operator", SYS)],
  ["QuantumSystem.h_t", "QuantumSystem.u_t", "has_one_body_time_evolution_operator", "has_two_body_time_evolution_operator"]),
P("C09", "Copies are equal to and fully independent of the original",
  "Copying a basis set or a system yields an object of the same kind with equal values of every quantity, sizes, flags and time dependence, for every kind of basis set, with or without spin, and any attached time-evolution operator. From then on the two are independent: no operation on one and no in-place modification of its arrays is visible in the other. Copying leaves the original usable and unchanged.",
  ["histories", "configurations", "inputs"], "all basis sets and systems, all interleaved operation sequences on original and copy",
  "One test copies one system and modifies one element of h.",
  [BS, SYS], [("copy_basis", BS), ("copy_system", SYS)],
  ["BasisSet.copy_basis", "QuantumSystem.copy_system"]),
P("C10", "A closed-shell system and its general-orbital version describe the same physics",
  "Constructing a general-orbital system from a spatial-orbital system gives twice the occupied and twice the basis functions, the same reference energy (static, and at every time under the attached time-evolution operator), a Fock matrix that is the spatial one repeated for both spins, and the same particle density for the spin-summed density matrix; for any orthonormal spin basis. The spatial system and its operator remain unchanged and independent of the new system. The same system results when the general system is built directly from the spatial basis.",
  ["inputs", "configurations", "histories"], "all closed-shell systems, spin bases, anti-symmetrization choices and attached operators",
  "Tests only compare the sizes of the two systems.",
  [SPA, GOS, BS], [("construct_general_orbital_system", SPA), ("change_to_general_orbital_basis", BS)],
  ["SpatialOrbitalSystem.construct_general_orbital_system", "compute_reference_energy", "construct_fock_matrix", "h_t", "u_t"]),
P("C11", "Sizes, occupied/virtual partition and shapes stay consistent; misuse is refused",
  "After construction and after every operation, the number of basis functions equals the length of every axis of every element array, occupied and virtual ranges split the basis functions into the first n and the remaining l - n, and a spatial system of n particles has n/2 occupied functions. Arrays with an axis of the wrong length (or, for functions and dipole, the wrong number of dimensions or components), more occupied than basis functions, an odd number of particles or a spin-including basis in a spatial system, spin quantities on a spin-free basis, and a non-orthonormal spin basis are refused with an error, and a refused assignment changes nothing.",
  ["inputs", "histories"], "all sizes, shapes and operation sequences",
  "Tests look at l after two operations and never at the partition or at refusals.",
  [SYS, BS, SPA, GOS], [("set_system_size", SYS), ("validating setters", BS), ("constructor checks", SPA)],
  ["n, l, m, o, v of a system", "shapes of all elements", "setters of BasisSet"],
  [("n, l, m, o, v", "sizes and slices of occupied and virtual functions", SYS)]),
P("C12", "Changing array type or array module never changes a value",
  "Casting to complex turns every element array that is set (and only those) into double-precision complex with the same values, and changing the array module passes every element array that is set through the new module, recorded by basis set and system alike, without changing a value, an element type, a size, a flag, or leaving a quantity behind (the compact sinc-DVR storage, which announces that it does not change module, is excepted). Both can be repeated and mixed with basis changes, spin doubling and copies, after which all later results are the same as without them.",
  ["histories", "configurations"], "all basis sets and systems, all sequences of conversions and other operations",
  "No test converts arrays or modules explicitly.",
  [BS, SYS, DVR], [("cast_to_complex", BS), ("change_module", SYS)],
  ["BasisSet.cast_to_complex", "BasisSet.change_module", "QuantumSystem.change_module"]),
P("C13", "1D dot functions are the lowest eigenfunctions of the grid Hamiltonian",
  "For every potential, grid extent, number of grid points and basis size, the one-dimensional quantum dot consists of the l lowest eigenstates, in ascending energy, of the three-point finite-difference Hamiltonian -1/2 d2/dx2 + V on the symmetric grid with vanishing end points: the functions satisfy the eigenvalue equation, vanish at both ends, and are orthonormal under the grid quadrature. The one-body Hamiltonian is the diagonal matrix of these energies and the overlap is the identity. Without a given potential the harmonic one of frequency 0.25 is used.",
  ["inputs", "configurations"], "all potentials, grid lengths, grid sizes, numbers of functions",
  "Stored results for four fixed parameter sets.",
  [OD, POT], [("ODQD.setup_basis", OD)],
  ["ODQD.h, spf, s, grid, eigen_energies"]),
P("C14", "1D interaction and dipole elements are the grid integrals of the functions",
  "For the one-dimensional quantum dot and harmonic-oscillator bases the two-body elements are the double trapezoidal integral of conj(p(x)) conj(q(y)) alpha/sqrt((x-y)^2 + a^2) r(x) s(y) over the basis functions on the grid, for every strength alpha and screening a. The laser interaction (dipole) elements of the quantum dot are the trapezoidal integrals of conj(p) (x + beta x^2) q.",
  ["inputs", "configurations"], "all basis functions, alpha, a, beta, grids",
  "Stored results with a = 0.25, alpha = 1, beta = 0 only.",
  [OD], [("_compute_inner_integral, _compute_orbital_integrals, _trapz, _shielded_coulomb", OD), ("construct_dipole_moment", OD)],
  ["ODQD.u, dipole_moment", "ODHO.u"]),
P("C15", "The 1D oscillator basis holds the exact harmonic-oscillator states",
  "For every frequency and size, the analytic one-dimensional oscillator basis has energies omega (n + 1/2), functions equal to the normalized Hermite functions of that frequency on the grid, overlap identity, and laser interaction elements equal to those of x + beta x^2 between these states. On a sufficiently fine and long grid its elements agree with grid integration of its own functions.",
  ["inputs", "configurations"], "all frequencies, sizes, beta and grids in the numerically stable range",
  "One doctest looks at l and at h[0,0] for omega = 1.",
  [OD], [("ODHO.ho_function, normalization, construct_dipole_moment", OD)],
  ["ODHO.h, s, spf, dipole_moment"]),
P("C16", "Each 1D potential has its documented shape and its derivative is its slope",
  "Every one-dimensional potential evaluates, on arrays and (except the hard-wall variant) on scalars, to its documented function of position for all parameters: harmonic; double well with minima of zero at plus and minus l/2; smooth double well with minima of zero at plus and minus a/2; symmetric sextic and asymmetric quartic polynomials; Gaussian well (optionally with hard walls); soft-core atomic. Wherever a derivative is offered it equals the slope of the potential (for the double well away from the kink, and zero on it).",
  ["inputs"], "all parameters and positions",
  "Potentials are only used indirectly at four parameter sets; no derivative is tested.",
  [POT], [("__call__ and derivative of each potential", POT)],
  ["potential(x)", "potential.derivative(x)"]),
P("C17", "Sinc-DVR holds kinetic energy, potential and interaction on its own grid",
  "For every potential, size and grid, the sinc-DVR one-body Hamiltonian is the sinc kinetic matrix pi^2/(6 dx^2) on the diagonal and (-1)^(i-j)/(dx^2 (i-j)^2) off it plus the potential at the grid points on the diagonal; overlap is the identity, dipole is the diagonal of x + beta x^2, functions are 1/sqrt(dx) at their own grid point and zero at the others. The interaction between functions p and q is alpha/sqrt((x_p-x_q)^2+a^2), nonzero only in elements u[p,q,p,q]. On fine grids the spectrum agrees with the exact one.",
  ["inputs", "configurations"], "all potentials, grids, sizes, alpha, a, beta",
  "No test touches the sinc-DVR basis.",
  [DVR], [("setup_basis, construct_coulomb_elements, construct_sinc_grid", DVR)],
  ["ODSincDVR.h, s, u, spf, dipole_moment"]),
P("C18", "Compact and full sinc-DVR interaction storage are interchangeable",
  "A sinc-DVR basis with its interaction stored as a matrix gives the same results as one storing all four indices: converting between the two storages in either direction and back, changing basis, previewing transformed elements, adding spin with or without anti-symmetrization, building systems, copying and switching the interaction in time lead to equal elements and, in the full form that basis changes and anti-symmetrization produce, equal energies and Fock matrices. Conversion changes nothing but the storage, and invalid storage names are refused.",
  ["histories", "inputs", "configurations"], "all operation sequences on both storages of the same basis",
  "No test touches the sinc-DVR basis.",
  [DVR, BS], [("set_u_repr, u_repr", DVR), ("transform_two_body_elements, add_spin_two_body, anti_symmetrize_u overrides", DVR)],
  ["ODSincDVR.u, u_repr, set_u_repr", "change_basis", "change_to_general_orbital_basis"]),
P("C19", "Orbital numbers and (n, m) labels of the 2D oscillator map one-to-one by shell",
  "For every orbital number p the label (n, m) has n >= 0, and mapping the label back gives p; every label belongs to exactly one p. Orbitals are ordered by shell 2n+|m|+1, the k-th shell holds exactly k orbitals, within a shell m increases in steps of two, and the shell energy of a label is 2n+|m|+1.",
  ["inputs"], "all orbital numbers p >= 0 and all labels n >= 0, integer m",
  "Tests compare with a stored table of small p only.",
  [TDH], [("get_index_p, get_indices_nm, get_shell_energy", TDH)],
  ["get_index_p", "get_indices_nm", "get_one_body_elements"]),
P("C20", "2D oscillator Coulomb elements are the exact integrals of 1/r12",
  "For any orbitals of the two-dimensional oscillator of unit frequency and mass, the Coulomb element <pq|u|rs> equals the exact integral of conj(p(1)) conj(q(2)) r(1) s(2) / |r1 - r2| over the library's own orbital functions, up to rounding errors. In particular it vanishes unless m_p + m_q = m_r + m_s, is invariant under exchanging the particles and under exchanging bra and ket, and under flipping the sign of all m.",
  ["inputs"], "all quadruples of orbitals",
  "Tests compare the first 36 orbitals against a stored table with tolerance 1e-6 and check one symmetry for 12.",
  [CE, TDH], [("coulomb_ho and log_* helpers", CE), ("get_coulomb_elements", TDH)],
  ["get_coulomb_elements", "coulomb_ho", "TwoDimensionalHarmonicOscillator.u"]),
P("C21", "2D oscillator orbitals, energies, dipole and interaction fit together",
  "For every frequency, mass, size and polar grid, the two-dimensional oscillator basis has functions equal to the normalized oscillator eigenfunctions of that frequency and mass at each grid point (angular index first), the diagonal one-body Hamiltonian omega (2n+|m|+1), overlap identity, x- and y-dipole elements equal to the integrals of x and y between these functions, and Coulomb elements scaled by sqrt(mass omega). All elements refer to the same orbital numbering.",
  ["inputs", "configurations"], "all frequencies, masses, sizes and grids",
  "Stored orbitals at omega = mass = 1; dipole elements only in absolute value for one double well in a test that cannot run.",
  [TD, TDH], [("TwoDimensionalHarmonicOscillator.setup_basis, setup_spf, construct_dipole_moment", TD), ("spf_state, radial and angular integrals", TDH)],
  ["TwoDimensionalHarmonicOscillator.h, s, u, spf, dipole_moment"]),
P("C22", "The 2D double well has the oscillator basis and the double-well Hamiltonian",
  "For every frequency, mass, barrier strength b and barrier axis, the one-body Hamiltonian of the two-dimensional double well in the oscillator basis equals the matrix of kinetic energy plus m omega^2/2 (r^2 + b^2/4 - b |x|), with |y| in place of |x| for the second axis, including all couplings between orbitals. Everything else (functions, dipole, interaction, overlap) is that of the two-dimensional oscillator, and zero barrier strength gives exactly the oscillator.",
  ["inputs", "configurations"], "all frequencies, masses, barrier strengths, axes and sizes",
  "One eigenvalue list for one parameter set, and zero barrier at one size.",
  [TD, TDH], [("get_double_well_one_body_elements, theta_*_tilde_integral, radial_integral", TDH), ("TwoDimensionalDoubleWell.setup_basis", TD)],
  ["TwoDimensionalDoubleWell.h and the other elements", "get_double_well_one_body_elements"]),
P("C23", "The 2D dot in a magnetic field holds the l lowest Fock-Darwin states",
  "For every confinement, field strength and direction, mass and size, the basis of the two-dimensional dot in a homogeneous magnetic field consists of l distinct states (n, m) whose energies W (2n+|m|+1) - omega_c m/2, with W = sqrt(omega^2 + omega_c^2/4), are the l lowest of all states in ascending order. Functions, dipole and interaction elements are those of the oscillator of frequency W for the same states in the same order, and overlap is the identity; without field the basis spans the ordinary oscillator shells.",
  ["inputs", "configurations"], "all confinement and cyclotron frequencies of either sign, sizes",
  "One runnable test at zero field with six orbitals; the stored-data test cannot run.",
  [TD, TDH], [("construct_dataframe", TDH), ("TwoDimHarmonicOscB", TD), ("get_coulomb_elements_B, get_one_body_elements_B", TDH)],
  ["TwoDimHarmonicOscB.h, u, spf, dipole_moment, get_indices_nm"]),
P("C24", "The Coulomb element cache is transparent and survives crashes and races",
  "With caching enabled, every request for two-dimensional Coulomb elements returns exactly the elements computed without caching, whatever sizes were requested before, in whatever order, by whichever process, for whichever dots. An interruption at any point of storing, be it a crash or a full disk (which the interrupted request may report as an error), never makes a later request fail or return other values, and leaves no file with partial contents under the cache name; several processes or threads requesting the same elements at once all get them. Modifying returned elements does not affect later requests, and without caching enabled no file is written.",
  ["crash_points", "fault_sequences", "histories", "schedules"], "all request sequences, all interruption points of the write, all concurrent processes and threads",
  "One test writes and reads one cache file in an undisturbed run.",
  [TDH], [("get_coulomb_elements", TDH)],
  ["get_coulomb_elements with QS_CACHE_TDHO set", "files in the storage directory"],
  [("cache file", "tdho_coulomb_num_orbitals=<l>.npy in the storage directory", TDH)]),
P("C25", "A molecular RHF system reproduces the restricted Hartree-Fock solution",
  "For every closed-shell atom or molecule, basis set, charge, geometry and Cartesian or spherical functions, the system built in the RHF basis has orthonormal orbitals, reference energy plus nuclear repulsion equal to the RHF total energy, a Fock matrix that is diagonal with ascending energies per orbital (occupied below virtual), as many occupied orbitals as electrons (pairs, in spatial form), and nuclear repulsion of the given geometry in bohr. One-body, two-body (physicists' order) and dipole elements relative to the center of nuclear charge are the molecular integrals transformed to these orbitals, with spin and anti-symmetrization as requested; odd electron numbers are refused.",
  ["inputs", "configurations"], "all closed-shell molecules, basis sets, charges and options",
  "The energies of helium and beryllium are tested in one basis.",
  [CUS, SPA], [("construct_pyscf_system_rhf", CUS)],
  ["construct_pyscf_system_rhf"]),
P("C26", "A molecular system in atomic orbitals holds the exact molecular integrals",
  "For every closed-shell atom or molecule, basis set, geometry in bohr and option accepted by the builder, the system in the atomic-orbital basis has the core Hamiltonian, overlap, electron repulsion in physicists' order <pq|rs> = (pr|qs), dipole about the coordinate origin and nuclear repulsion energy of that molecule. Electron count and basis size are those of the molecule, with spin and anti-symmetrization as requested, and transforming it with RHF coefficients gives the RHF system's Hamiltonian.",
  ["inputs", "configurations"], "all closed-shell molecules, basis sets and options",
  "A doctest looks at the number of occupied orbitals of beryllium.",
  [CUS, SPA], [("construct_pyscf_system_ao", CUS)],
  ["construct_pyscf_system_ao"]),
P("C27", "Random basis sets have the declared symmetries and follow the random seed",
  "A random basis set of any size and dimension has complex Hermitian one-body, overlap and dipole elements, two-body elements invariant under exchanging the two particles, one dipole component per dimension and a nuclear repulsion energy between zero and one, with genuinely random (not repeated or vanishing) entries. Equal random seeds give equal basis sets, different draws give different ones, and symmetries survive unitary basis changes and adding spin.",
  ["inputs", "configurations"], "all sizes, dimensions, seeds, with and without the spin flag",
  "A doctest looks at one shape; other tests only consume random basis sets.",
  [RND], [("setup_basis, make_hermitian, make_two_body_symmetry, get_random_elements", RND)],
  ["RandomBasisSet", "RandomBasisSet.get_random_elements"]),
P("C28", "Every sampler sees every step exactly once and dumped samples are complete",
  "A sample collector forwards each sampling step to each of its samplers exactly once and in order of steps, whatever iterable the samplers came in. Dumping collects the samples of every sampler, in addition to samples added directly, returns them all, and, unless told not to write, stores them so that loading the file gives back the same samples; dumping repeatedly or with other paths and names never loses samples, creates missing directories, and refuses an existing directory only when asked to.",
  ["histories", "inputs"], "all sampler collections, step sequences, sample contents, dump options",
  "No test uses the sampler module.",
  [SAM], [("SampleCollector.sample, dump, add_sample", SAM)],
  ["SampleCollector", "Sampler", "files written by dump"]),
P("C29", "Every shipped basis set is a valid discretized quantum system",
  "Every shipped basis set of a physical system (one- and two-dimensional dots, sinc-DVR, molecules; not the purely random one), for all admissible parameters, can be constructed and has finite elements of consistent size with Hermitian one-body Hamiltonian, overlap and dipole, positive definite overlap, and two-body elements that are Hermitian, invariant under particle exchange, and (for a repulsive interaction) positive semidefinite. Constructing it twice with equal parameters gives the same Hamiltonian, and constructing other basis sets in between changes nothing. These facts survive adding spin and unitary basis changes.",
  ["inputs", "configurations", "histories"], "all shipped physical basis sets and parameters, all construction orders",
  "Tests check one exchange symmetry for three fixed systems.",
  ["quantum_systems/__init__.py", OD, DVR, TD, TDH, CUS, RND], [("setup_basis of each class", TD), ("constructors", OD)],
  ["h, s, u, dipole_moment, spf of every basis set"]),
P("C30", "Compiled kernels are memory safe and independent of threads and compilation",
  "The compiled integral kernels never index outside their arrays and give the same values compiled or interpreted, with any number of threads, in repeated runs, and when called from several threads of the program at once (they release the interpreter lock). Results of one call are never affected by another.",
  ["schedules", "inputs", "configurations"], "all inputs, thread counts and thread interleavings",
  "Tests run each kernel once with the default number of threads and without bounds checks.",
  [CE, TDH, OD, HLP], [("numba.njit(parallel, nogil, fastmath) kernels", TDH), ("coulomb_ho", CE), ("_compute_orbital_integrals", OD)],
  ["get_coulomb_elements", "coulomb_ho", "get_indices_nm", "ODQD.u"]),
P("C31", "One physical problem has one answer in every discretization, unit and basis size",
  "On grids that resolve the functions, the oscillator basis, the finite-difference dot (extrapolated to vanishing spacing) and sinc-DVR brought to its eigenfunctions give the same one-particle energies, dipole and interaction elements (up to signs of the functions) and two-particle energies. Changing the unit of length (omega, a, alpha, beta, potential and grid together) scales every energy, interaction, dipole element and function alike; mirroring a potential mirrors functions and flips the dipole; a constant added to a potential only shifts the energies. A larger one-dimensional dot or oscillator or two-dimensional oscillator or double well contains the smaller one. In whole shells the 2D dot in no (a weak) field has the energies of the oscillator (of the effective frequency, less omega_c/2 times the angular momentum); the 2D double well of no barrier is the oscillator, and wells along x and y have the same energies.",
  ["inputs", "configurations"], "all one- and two-dimensional dots, wells, strengths, units and sizes resolved by the grid",
  "Tests never compare two basis sets of the same problem with each other.",
  [OD, DVR, TD, TDH], [("setup_basis", OD), ("setup_basis", DVR), ("setup_basis", TD)],
  ["h, u, dipole_moment, spf of dots of the same problem"]),
P("C32", "Operations change nothing but the object they are called on",
  "No operation modifies the arrays, lists, dictionaries, coefficients, spin vectors, potentials, polarizations or density matrices handed to it, at the call or in any later operation (elements assigned to a basis set stay as they were in the caller's hands; only an output array given for the Fock matrix is written), nor the surroundings: NumPy's error handling, print options and random state (except for drawing random basis sets), Python's random state, warning filters, environment, working directory and its files (except for requested dumps and caches), module search path, signal handlers, thread settings. The basis set handed to a system becomes the system's and is excepted.",
  ["inputs", "histories"], "all operations and histories of operations",
  "No test looks at its arguments or at global state after a call.",
  [BS, SYS, OPS, OD, DVR, TD, CUS, SAM], [("change_basis, change_to_general_orbital_basis, transform_*", BS), ("h_t, u_t", OPS), ("setup_basis", OD)],
  ["arguments of every call", "np.geterr, np.random.get_state, warnings.filters, os.environ, os.getcwd"]),
]

path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
assert len({p["id"] for p in PROPS}) == len(PROPS)
with open(path, "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
print(len(PROPS))
