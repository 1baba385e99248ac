#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in step with what the checks claim)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=["libgrpp/" + f if "/" not in f else f for f in files],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

prop("C01", "Concurrent calls give the serial results under every schedule",
 "After initialization any number of threads may call the integral and gradient routines at the same time, sharing the same shells, potentials and pseudopotential objects, and every call returns exactly the matrices it would return if it ran alone. No routine that only computes integrals writes to memory that another concurrently running call can reach: not its arguments, not library-global data.",
 ["schedules", "inputs"], "all interleavings of concurrent integral/gradient calls by >= 2 threads on shared read-only objects, for every routine of the public interface",
 "The test drivers run single-threaded with OMP_NUM_THREADS=1 and never share an object between threads, so no interleaving is ever exercised.",
 ["outercore_integrals.c", "overlap_gradient.c", "grpp_integrals_gradient.c", "full_grpp_integrals.c", "spherical_harmonics.c", "specfunc_scaled_mod_sph_bessel.c", "parameters.c"],
 [("per-call local buffers; read-only tables after init", "all integral routines"), ("omp critical around initialization", "libgrpp/init_finalize.c")],
 ["return of every integral/gradient call in every thread", "content of all argument objects and library data segments during the call"],
 [("argument objects", "shells, potentials, grpp containers shared by threads", "libgrpp.h"), ("library data", "global tables, parameters", "init_finalize.c, parameters.c")])

prop("C02", "Initialization and finalization are idempotent, repeatable and race-free",
 "Initialization may be called any number of times, from any number of threads at once, interleaved with finalization: it performs its set-up exactly once per init/finalize epoch, no thread returns from it before the library is ready, and the initialized-query reports the state the preceding calls imply. Results computed in any epoch are bit-identical to those of the first, and init/finalize cycles do not lose memory or free anything twice.",
 ["schedules", "histories"], "all sequences and interleavings of init / finalize / query / integral calls by up to N threads",
 "Each test driver calls init once, from one thread, and finalize once at exit; repeated or concurrent init and re-use after finalize are never exercised.",
 ["init_finalize.c", "spherical_harmonics.c", "specfunc_scaled_mod_sph_bessel.c", "libgrpp.h"],
 [("initialized flag tested inside the critical section", "libgrpp/init_finalize.c"), ("table construction/destruction", "libgrpp/spherical_harmonics.c")],
 ["libgrpp_is_initialized()", "heap blocks live after each init/finalize", "integral values in each epoch"],
 [("initialized flag", "library ready", "init_finalize.c"), ("coefficient tables", "created by init", "spherical_harmonics.c, specfunc_scaled_mod_sph_bessel.c")])

prop("C03", "Integral calls are pure: args untouched, outputs complete, no residue",
 "Every integral or gradient call completely overwrites each output matrix it was given (whatever it contained before), writes nothing outside those matrices, leaves every argument object, tolerance setting and ordering setting as it was, and releases all temporary memory. The result depends only on the arguments and the current settings, never on which other calls were made before.",
 ["histories", "inputs"], "all call histories of the public interface; all routines, arguments and prior buffer contents",
 "Tests call each routine once with freshly zeroed buffers, and never look at the arguments, at memory around the outputs, at the heap, or at a repeated call after a different history.",
 ["full_grpp_integrals.c", "outercore_integrals.c", "type1_integrals.c", "type2_integrals.c", "spin_orbit_integrals.c", "grpp_integrals_gradient.c", "overlap_gradient.c", "overlap.c", "kinetic.c", "momentum.c", "nuclear_attraction.c", "diff_gaussian.c"],
 [("outputs cleared at entry", "every integral routine"), ("temporaries freed at exit", "every integral routine")],
 ["return of each call: output matrices, guard zones, argument objects, settings, live heap blocks"])

prop("C04", "Shell, potential and GRPP objects follow their value/ownership contract",
 "Constructors copy their inputs; copying, shrinking and normalization-folding return or leave exactly the documented content (a shrink drops exactly the negligible terms and keeps the order of the others, a copy shares nothing with its source); a GRPP container holds exactly the parts bound to it in the order they were bound, with a newly set local part replacing and releasing the old one. Every object is released exactly once by its destructor, and deleting a container releases all parts it owns.",
 ["histories"], "all sequences of constructor / copy / shrink / bind / destructor calls, in any order, up to the container capacity",
 "Tests build each object once, in one fixed order, and never inspect copies, replaced parts, capacity limits or what is released.",
 ["shell.c", "potential.c", "grpp.c"],
 [("deep copies in constructors", "libgrpp/shell.c, libgrpp/potential.c"), ("ownership lists", "libgrpp/grpp.c")],
 ["fields of the returned objects", "heap allocation/release events at each call"],
 [("heap objects", "shells, potentials, containers and who owns them", "shell.c, potential.c, grpp.c")])

prop("C05", "Overlap integrals equal the exact overlap of the two contracted shells",
 "For every pair of contracted Cartesian Gaussian shells of angular momentum up to the documented maximum 10, at any centres (including coincident ones), the overlap matrix holds the exact three-dimensional overlap of the documented normalized functions, at row (function of first shell) and column (function of second shell), within 1e-10 (relative to the largest element of the matrix where that is larger than one).",
 ["inputs"], "all shells L<=10, exponents, contraction lengths, centres",
 "Reference molecules cover a handful of low-L basis sets and a few geometries, most elements being insensitive to any single term.",
 ["overlap.c", "norm_gaussian.c", "shell.c"],
 [("Obara-Saika recursions", "libgrpp/overlap.c"), ("primitive norm factor", "libgrpp/norm_gaussian.c")],
 ["matrix returned by libgrpp_overlap_integrals"])

prop("C06", "Kinetic-energy and momentum integrals equal their exact values",
 "For every pair of contracted shells up to angular momentum 10 the kinetic-energy matrix equals the exact matrix of -1/2 times the Laplacian, and the three momentum matrices equal the exact matrix of the Cartesian derivative operators with the documented sign convention, within 1e-10 (relative to the largest element of the matrix where that is larger than one).",
 ["inputs"], "all shells L<=10, exponents, contraction lengths, centres",
 "Tests compare a few molecules only; momentum integrals for general L and all boundary exponents are reached by chance at best.",
 ["kinetic.c", "momentum.c", "norm_gaussian.c"],
 [("Obara-Saika recursions with derivative terms", "libgrpp/kinetic.c, libgrpp/momentum.c")],
 ["matrices returned by libgrpp_kinetic_energy_integrals and libgrpp_momentum_integrals"])

prop("C07", "Local-potential (type 1) integrals equal their exact values",
 "For every pair of contracted shells and every local potential that is a sum of terms c r^(n-2) exp(-zeta r^2), n=0,1,2, the type 1 matrix equals the exact integral of the product of the two functions with the potential, for any placement of the three centres including coincidences, with absolute error within 1e-10 for normalized basis functions and moderate coefficients (apart from double-precision rounding where the expansion about a distant or nearly coincident centre amplifies it).",
 ["inputs"], "all shells L<=10, all exponents and contraction lengths, all placements of the three centres, all powers n=0,1,2",
 "Reference data cover few geometries and ECPs; special-function ranges, high angular momenta and degenerate placements are reached only accidentally.",
 ["type1_integrals.c", "type1_mcmurchie_davidson.c", "specfunc_boys.c", "specfunc_gfun.c", "specfunc_dawson.c"],
 [("McMurchie-Davidson expansion", "libgrpp/type1_mcmurchie_davidson.c"), ("Boys and G functions", "libgrpp/specfunc_boys.c, libgrpp/specfunc_gfun.c")],
 ["matrix returned by libgrpp_type1_integrals"])

prop("C08", "Semi-local (type 2) integrals equal their exact values",
 "For every pair of contracted shells and every potential sum of c r^(n-2) exp(-zeta r^2) times the projector onto angular momentum l about its centre, the type 2 matrix equals the exact integral, for any placement of the three centres (including one or both shells sitting on the potential), with absolute error within the documented accuracy (1e-10 for normalized functions and moderate coefficients).",
 ["inputs"], "all shells, projector momenta l, powers n>=0, exponents, contraction lengths, placements of centres",
 "A few molecules with fixed ECPs; grid convergence, screening, Bessel-function ranges and degenerate placements are not systematically visited.",
 ["type2_integrals.c", "radial_type2_integral.c", "angular_integrals.c", "spherical_harmonics.c", "screening.c", "specfunc_scaled_mod_sph_bessel.c", "specfunc_bessel_table.c"],
 [("radial integration on adaptive log3 grid", "libgrpp/radial_type2_integral.c"), ("analytic angular integrals", "libgrpp/angular_integrals.c"), ("screening", "libgrpp/screening.c"), ("Bessel table", "libgrpp/specfunc_scaled_mod_sph_bessel.c")],
 ["matrix returned by libgrpp_type2_integrals"])

prop("C09", "Spin-orbit integrals equal their exact values",
 "For every pair of contracted shells and every potential with projector l, the three spin-orbit matrices equal the exact matrix elements of U(r) P_l l_x, U(r) P_l l_y, U(r) P_l l_z (real antisymmetric convention of the library) about the potential's centre, for any placement of the centres, within the same accuracy as the semi-local integrals; for l=0 they vanish.",
 ["inputs"], "all shells, projector momenta, powers, exponents, contraction lengths, placements",
 "Only a few molecules are compared and only through assembled matrices; sign or component mistakes confined to particular l,m or placements can be invisible.",
 ["spin_orbit_integrals.c", "lmatrix.c", "radial_type2_integral.c", "angular_integrals.c"],
 [("angular momentum matrices in real harmonics", "libgrpp/lmatrix.c"), ("contraction with type 2 angular integrals", "libgrpp/spin_orbit_integrals.c")],
 ["matrices returned by libgrpp_spin_orbit_integrals"])

prop("C10", "Outercore (non-local) integrals equal the documented projector formula",
 "For every list of (outercore potential, outercore shell) pairs the scalar-relativistic and the three spin-orbit matrices equal the matrix elements of the documented non-local operator: U P + P U minus the sum over pairs of equal l,j of P (U+U')/2 P', with the documented l,j weights, shells taken at the potential's centre, within the same accuracy as the semi-local integrals. The order in which the pairs are listed does not matter.",
 ["inputs"], "all lists of outercore pairs (any l, both j, repeated l,j), shells A,B and centres",
 "Tests use the few published GRPPs; off-diagonal pairs, lists in another order, single-j lists and other l are not covered.",
 ["outercore_integrals.c", "type1_integrals.c", "overlap.c", "lmatrix.c", "spherical_harmonics.c"],
 [("part 1 / part 2 sums", "libgrpp/outercore_integrals.c"), ("one-centre radial integrals", "libgrpp/outercore_integrals.c")],
 ["matrices returned by libgrpp_outercore_potential_integrals"])

prop("C11", "Full-GRPP integrals are the documented weighted sum of their parts",
 "For every GRPP object (with or without a local part, with any number of averaged, spin-orbit and outercore parts in any order) the scalar-relativistic matrix equals local + sum of semi-local + outercore parts, and each spin-orbit matrix equals the sum of 2/(2l+1) times the semi-local spin-orbit parts + outercore parts, as returned by the individual routines; the same holds for the gradients.",
 ["inputs", "histories"], "all compositions of GRPP objects (empty parts, repeated l, any order), all shells and centres",
 "Test GRPPs always have every part present in a canonical order; the sum is checked only as a whole against reference molecules.",
 ["full_grpp_integrals.c", "grpp_integrals_gradient.c", "grpp.c"],
 [("accumulation loop", "libgrpp/full_grpp_integrals.c")],
 ["matrices returned by libgrpp_full_grpp_integrals(_gradient) and by the individual routines"])

prop("C12", "Matrix elements obey exchange, translation, rotation and reflection symmetry",
 "Swapping the two shells transposes every scalar matrix and negates-and-transposes the spin-orbit and derivative-operator matrices; translating all centres together changes nothing; permuting or reflecting the coordinate axes of all centres permutes and signs the elements exactly as the Cartesian components transform (spin-orbit components as an axial vector). This holds for all integrals and gradients, up to rounding of the method.",
 ["inputs"], "all shells, potentials and centre placements; all elements of the hyperoctahedral group and translations",
 "Tests check one orientation of each molecule and never compare two related calculations.",
 ["type1_mcmurchie_davidson.c", "type2_integrals.c", "spin_orbit_integrals.c", "outercore_integrals.c", "overlap.c", "kinetic.c", "momentum.c", "nuclear_attraction.c", "spherical_harmonics.c"],
 [("symmetric treatment of x,y,z and of bra and ket", "all integral routines")],
 ["matrices of the transformed and the original call"])

prop("C13", "Integrals are linear in contraction and potential coefficients",
 "A matrix over contracted shells equals the coefficient-weighted sum of the matrices over the single primitives (with their own normalization), and a matrix of a potential equals the coefficient-weighted sum over its single terms; the order of primitives or terms is irrelevant and primitives or terms with zero coefficient change nothing. This holds for every integral and gradient routine, within the accuracy of the method.",
 ["inputs"], "all contraction lengths, coefficient signs and magnitudes (including 0), orders, all routines",
 "Test basis sets are fixed; neither permuted, split nor zero-padded contractions are compared with each other.",
 ["shell.c", "potential.c", "radial_type2_integral.c", "screening.c", "type1_integrals.c", "overlap.c", "kinetic.c", "momentum.c", "nuclear_attraction.c", "outercore_integrals.c"],
 [("loops over primitives with coefficient cut-offs", "all integral routines")],
 ["matrices of contracted call versus matrices of primitive calls"])

prop("C14", "The ordering of Cartesian components only permutes rows and columns",
 "Whatever ordering of Cartesian components is selected (the default, the alternative built-in, or a user generator), each shell keeps the order it was created with, and every integral and gradient routine returns the same elements with rows and columns permuted accordingly; the built-in orders list each component exactly once in the documented sequence. Mixed shells created under different orderings, or shells whose list is set by hand, are handled by their own lists.",
 ["configurations", "histories"], "all orderings x histories of ordering changes between shell creation and use x all routines",
 "Tests run entirely in the default ordering; no test changes it.",
 ["parameters.c", "shell.c", "diff_gaussian.c", "grpp_integrals_gradient.c", "overlap_gradient.c"],
 [("component list stored in the shell", "libgrpp/shell.c"), ("order generators", "libgrpp/parameters.c")],
 ["component list of new shells; matrices under different orderings"],
 [("current ordering", "global setting used at shell creation", "parameters.c")])

prop("C15", "Pseudopotential gradients equal the derivatives of the integrals",
 "Each gradient matrix (type 1, type 2, spin-orbit, outercore and full GRPP) equals the exact derivative of the corresponding integral with respect to moving the given point together with every centre located there; it is zero when neither shell nor the potential sits at the point or all three coincide there. The sum of the gradients over the distinct centres vanishes.",
 ["inputs"], "all shells L<=9 (L+1 within range), potentials, and all coincidence patterns of the point, the two shell centres and the potential centre",
 "Tests differentiate a few molecules' assembled matrices; coincidence patterns of individual shell pairs, high L and single components are not isolated.",
 ["grpp_integrals_gradient.c", "diff_gaussian.c", "type1_integrals.c", "type2_integrals.c", "spin_orbit_integrals.c", "outercore_integrals.c"],
 [("shell differentiation 2a|l+1> - l|l-1>", "libgrpp/diff_gaussian.c"), ("translational invariance for the potential centre", "libgrpp/grpp_integrals_gradient.c")],
 ["matrices returned by the *_gradient routines"])

prop("C16", "Overlap gradients equal the derivatives of the overlap integrals",
 "The three overlap gradient matrices equal the exact derivative of the overlap matrix with respect to moving the given point together with every shell centred there: the bra derivative, the ket derivative, or zero when no shell or both shells sit at the point. It holds for all contracted shells up to the documented maximum.",
 ["inputs"], "all shells, exponents, contractions and coincidence patterns",
 "Tests cover a few molecules' assembled overlap gradients.",
 ["overlap_gradient.c", "diff_gaussian.c", "overlap.c"],
 [("differentiated shells", "libgrpp/diff_gaussian.c")],
 ["matrices returned by libgrpp_overlap_integrals_gradient"])

prop("C17", "Nuclear-attraction integrals match the exact potential of the chosen nucleus",
 "For the point, uniformly charged ball, Gaussian, Fermi and Fermi-bubble nucleus models the matrix equals the exact attraction integral of the two shells with the electrostatic potential of that charge distribution (analytic and numerical point charge agreeing), linear in the charge. The model-specific convenience routines return exactly what the generic routine returns for the same parameters.",
 ["inputs", "configurations"], "all nucleus models and parameters, charges, shells and centre placements",
 "Tests use one nucleus model parameter set per molecule, only the generic entry point, and finite-nucleus results differ from point results by little.",
 ["nuclear_attraction.c", "nuclear_models.c", "radial_type1_integral.c", "type1_integrals.c", "type1_mcmurchie_davidson.c", "specfunc_fermi_sk.c"],
 [("numerical radial integration of V(r)", "libgrpp/radial_type1_integral.c"), ("parameter passing", "libgrpp/nuclear_attraction.c")],
 ["matrices returned by libgrpp_nuclear_attraction_integrals*"])

prop("C18", "Nuclear charge models are normalized, mutually consistent and exact",
 "Each charge density is non-negative, integrates to the nuclear charge and has the stated root-mean-square radius; each electrostatic potential is that of its own density (continuous, equal to -Z/r outside), and the root-mean-square radius routines and empirical estimators return the documented formulae. The estimator of Fermi parameters reports failure exactly when no parameters exist for the requested radius.",
 ["inputs"], "all radii r>0, charges, model parameters within the physical range",
 "Tests never call these functions directly; integrals are sensitive only to a tiny correction from them.",
 ["nuclear_models.c", "nuclear_models.h", "specfunc_fermi_sk.c"],
 [("closed formulae with S_k series", "libgrpp/nuclear_models.c, libgrpp/specfunc_fermi_sk.c")],
 ["values returned by the libgrpp_charge_density_*, libgrpp_coulomb_potential_*, libgrpp_rms_radius_* and estimator routines"])

prop("C19", "The Fortran interface returns exactly what the C interface returns",
 "Every Fortran-callable entry point, given the same data, returns bit-for-bit the matrices or values of its C counterpart, leaves its inputs unchanged and releases everything it allocated (the outercore entry points, whose parts the caller sums, agree to rounding); entry points without a C counterpart return their documented quantity.",
 ["inputs"], "all Fortran entry points, all argument values",
 "Tests compare both interfaces only through molecule totals with one ECP each, and several entry points are never called from Fortran.",
 ["fortran.c", "test_libgrpp_f90/libgrpp.f90"],
 [("argument conversion wrappers", "libgrpp/fortran.c")],
 ["outputs of the Fortran-named routines versus the C routines"])

prop("C20", "Every documented input is computed: no crash, abort or stray access",
 "For all shells and potentials within the documented limits (angular momentum up to 10 for basis functions and for potentials, any number of primitives, any centres), each routine returns finite matrices and neither aborts, reads uninitialized or foreign memory, nor writes outside its own storage; gradients work for shells up to one below the limit.",
 ["inputs"], "all L_A, L_B, l within documented maxima, all routines",
 "Test basis sets stop at g or h functions and l<=5 projectors, so limits of internal arrays are never approached.",
 ["overlap.c", "kinetic.c", "momentum.c", "type1_mcmurchie_davidson.c", "type2_integrals.c", "angular_integrals.c", "factorial.c", "specfunc_boys.c", "specfunc_gfun.c", "specfunc_scaled_mod_sph_bessel.c", "spherical_harmonics.c", "grpp_integrals_gradient.c"],
 [("fixed-size work arrays and tables", "see files")],
 ["process status, sanitizer events and finiteness of outputs of each call"])

prop("C21", "Accuracy settings act as documented and the settings interface is coherent",
 "Restoring default parameters yields results bit-identical to a fresh process whatever was set before; tightening or loosening the radial tolerance changes numerical integrals only within the requested tolerance; setting an ordering or a generator takes effect for shells created afterwards and for nothing else.",
 ["configurations", "histories"], "all sequences of settings calls interleaved with integral calls",
 "No test changes a setting.",
 ["parameters.c", "parameters.h", "radial_type2_integral.c", "radial_type1_integral.c"],
 [("global parameter block", "libgrpp/parameters.c")],
 ["integral values before/after settings calls"],
 [("parameters", "tolerances and ordering", "parameters.c")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
