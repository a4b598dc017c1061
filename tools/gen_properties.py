#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os, sys
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["libgrpp/" + f if "/" not in f else f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

DOM = ("All pairs of contracted Cartesian Gaussian shells (angular momenta 0..10, any number of primitives, exponents from diffuse "
       "to core-like, coefficients of either sign), at any positions, coincident, collinear or general")
FEW = ("The suite compares six fixed molecules with stored matrices (abs. 1e-10, missing or NaN elements pass); L never exceeds 5 or so, "
       "every centre carries an atom, and ")

p("C01", "Overlap, kinetic and momentum matrix elements equal their integrals",
  "For any two shells the overlap, kinetic-energy and momentum blocks equal the integrals of the shells' declared functions with 1, -1/2 Laplacian "
  "and the (imaginary part of the) -i nabla operator acting on the right-hand function. Agreement is to working precision relative to the size of the integrand, for every "
  "component of the block and every documented angular momentum.",
  ["inputs"], DOM + ".",
  FEW + "only a handful of exponents and distances occur; the property is about all of them.",
  ["overlap.c", "kinetic.c", "momentum.c", "diff_gaussian.c", "norm_gaussian.c"],
  [("one-dimensional Gaussian overlap recursions", "overlap.c"), ("differentiated-Gaussian combinations", "kinetic.c, momentum.c")],
  observe=["libgrpp_overlap_integrals", "libgrpp_kinetic_energy_integrals", "libgrpp_momentum_integrals"])

p("C02", "Local (type 1) pseudopotential integrals equal their definition",
  "For any two shells and any local potential, a sum of d r^(n-2) exp(-zeta r^2) terms with n = 0, 1 or 2 centred anywhere, every returned element equals the "
  "three-dimensional integral of left function, potential and right function. This holds to working precision whether the potential centre coincides with none, one or both of "
  "the shell centres, and for any number and mixture of terms.",
  ["inputs"], DOM + "; any potential expansion (powers 0..2, exponents >= 0, either sign of coefficient), any centre.",
  FEW + "the potentials are a few tabulated ones with a fixed mixture of powers.",
  ["type1_integrals.c", "type1_mcmurchie_davidson.c", "specfunc_boys.c", "specfunc_gfun.c", "specfunc_dawson.c"],
  [("Hermite Gaussian expansion with auxiliary functions per power", "type1_mcmurchie_davidson.c"), ("Boys / G_n functions", "specfunc_boys.c, specfunc_gfun.c")],
  observe=["libgrpp_type1_integrals"])

p("C03", "Semilocal (type 2) integrals equal their definition",
  "For any two shells and any radial potential with an angular projector onto angular momentum l about its centre, every returned element equals the integral of "
  "left function times potential times the projection of the right function onto all spherical harmonics of degree l about that centre. This holds to working precision for "
  "every geometry, including centres that coincide, and for every documented l.",
  ["inputs"], DOM + "; projector l 0..10, any potential expansion with powers 0..2, any centre.",
  FEW + "the radial quadrature, screening and angular tables are driven with very few parameter combinations.",
  ["type2_integrals.c", "angular_integrals.c", "radial_type2_integral.c", "screening.c", "spherical_harmonics.c", "specfunc_scaled_mod_sph_bessel.c"],
  [("adaptive radial quadrature with screening", "radial_type2_integral.c, screening.c"), ("angular integral tables", "angular_integrals.c, spherical_harmonics.c")],
  observe=["libgrpp_type2_integrals"])

p("C04", "Spin-orbit integrals equal their definition",
  "For any two shells and any radial potential with projector l, the three returned spin-orbit matrices equal the integrals of potential times projector times the corresponding "
  "component of r x nabla about the potential centre (the imaginary factor dropped, one fixed sign and axis convention), to working precision. For l = 0 they vanish.",
  ["inputs"], DOM + "; projector l 0..10, any potential expansion with powers 0..2, any centre, all three components.",
  FEW + "spin-orbit blocks are compared for heavy-atom cases with one orientation each.",
  ["spin_orbit_integrals.c", "lmatrix.c", "angular_integrals.c", "radial_type2_integral.c"],
  [("angular-momentum matrices between projected angular integrals", "spin_orbit_integrals.c, lmatrix.c")],
  observe=["libgrpp_spin_orbit_integrals"])

p("C05", "Outercore (nonlocal) integrals equal the documented operator",
  "For any list of outercore potentials and outercore shells, the returned scalar and spin-orbit blocks equal the matrix elements of the documented nonlocal operator: both one-sided projector terms "
  "minus the two-sided term with the averaged potentials for shells of equal l and j, weighted by the documented j-dependent factors. The centre stored in the outercore shells is irrelevant, "
  "only the centre passed in the call counts.",
  ["inputs"], DOM + "; any number of outercore shells (l up to the documented maximum, both j, several radial functions per l,j, contracted) and their potentials.",
  FEW + "the outercore lists are three or four tabulated ones, so wrong pairings, factors or norms for other l, j or list shapes are invisible.",
  ["outercore_integrals.c", "type1_integrals.c", "overlap.c", "lmatrix.c"],
  [("projection through Cartesian-to-spherical transformation", "outercore_integrals.c"), ("analytic one-centre radial integrals", "outercore_integrals.c")],
  observe=["libgrpp_outercore_potential_integrals"])

p("C06", "The full operator equals the sum of its parts",
  "Integrals and gradients of a complete pseudopotential object equal the local part plus all semilocal parts plus all outercore parts for the scalar blocks, and the semilocal spin-orbit parts, each scaled by 2/(2l+1), "
  "plus the outercore spin-orbit parts for the spin-orbit blocks. This holds for every composition of the object, including absent or empty parts, any order in which parts were added, and any l carried by each part.",
  ["inputs", "configurations"], "All compositions of a pseudopotential object (0..n semilocal, spin-orbit and outercore parts in any order and with any l), any shell pair and geometry.",
  FEW + "objects always come from one file format with parts in ascending l.",
  ["full_grpp_integrals.c", "grpp.c", "grpp_integrals_gradient.c"],
  [("accumulation of the parts", "full_grpp_integrals.c, grpp_integrals_gradient.c")],
  observe=["libgrpp_full_grpp_integrals", "libgrpp_full_grpp_integrals_gradient"])

p("C07", "Nuclear attraction integrals match the potential of each nuclear model",
  "For any shells, centre, charge and nuclear model (point, numerically integrated point, uniformly charged ball, Gaussian, Fermi, Fermi with a hole) the returned block equals the integral of both functions with the "
  "electrostatic potential of that charge distribution with the given parameters. The model-specific entry points return exactly what the general one returns for the same model and parameters, and shrinking a finite nucleus converges to the point nucleus.",
  ["inputs", "configurations"], DOM + "; any charge, centre, model and physically meaningful model parameters (radius, c, a, k).",
  FEW + "nuclear radii are so small that all models agree to many digits, the model-specific entry points are never called and the hole parameter is never set.",
  ["nuclear_attraction.c", "nuclear_models.c", "type1_mcmurchie_davidson.c", "radial_type1_integral.c", "type1_integrals.c"],
  [("dispatch of model and parameters", "nuclear_attraction.c"), ("numerical radial integration of local potentials", "type1_integrals.c, radial_type1_integral.c")],
  observe=["libgrpp_nuclear_attraction_integrals and its model-specific variants"])

p("C08", "Nuclear charge models are self-consistent",
  "For every nuclear charge model and physical parameters the charge density integrates to the nuclear charge, the potential is exactly the one generated by that density (at every radius, inside and outside), and the reported rms radius "
  "is that of the density. The radius and Fermi-parameter estimates follow their published formulas and the parameter estimate reports failure when no real parameters exist.",
  ["inputs"], "All radii r > 0, charges, rms radii, and Fermi parameters c > 0, a > 0 with c/a in the physical range, any hole parameter k.",
  "Densities, rms radii, estimates and the hole model are never compared with anything; potentials are only seen through integrals at one or two tiny radii.",
  ["nuclear_models.c", "specfunc_fermi_sk.c"],
  [("closed-form potentials and norms", "nuclear_models.c"), ("Fermi sums S_k", "specfunc_fermi_sk.c")],
  observe=["libgrpp_charge_density_*", "libgrpp_coulomb_potential_*", "libgrpp_rms_radius_*", "libgrpp_estimate_*"])

p("C09", "Pseudopotential gradients are the exact derivatives",
  "The gradient of local, semilocal, spin-orbit, outercore and full pseudopotential integrals with respect to a point equals the derivative of the corresponding integrals when every centre located at that point (left shell, right shell, potential) moves together. "
  "It is zero when no centre is at the point, and the gradients over all distinct centres sum to zero.",
  ["inputs"], DOM + "; any potential and centre; the differentiation point at any of the centres, at shared centres, or elsewhere.",
  FEW + "only one light molecule in one geometry is compared for the parts, and gradients of the heavy ones already fail their own references.",
  ["grpp_integrals_gradient.c", "diff_gaussian.c"],
  [("shell differentiation and translational invariance", "grpp_integrals_gradient.c, diff_gaussian.c")],
  observe=["libgrpp_*_integrals_gradient"])

p("C10", "Overlap gradients are the exact derivatives",
  "The gradient of overlap integrals with respect to a point equals the derivative of the overlap block when the shells located at that point move. It is zero when both shells or neither of them are at the point, and the gradients at the two centres are opposite.",
  ["inputs"], DOM + "; the differentiation point at the left centre, the right centre, both or neither.",
  FEW + "overlap gradients are compared in one water geometry with s, p, d functions.",
  ["overlap_gradient.c", "diff_gaussian.c"],
  [("shell differentiation", "overlap_gradient.c, diff_gaussian.c")],
  observe=["libgrpp_overlap_integrals_gradient"])

p("C11", "Exchanging the shells transposes the matrices with the right sign",
  "Exchanging left and right shell transposes overlap, kinetic, nuclear-attraction, local, semilocal, scalar outercore and scalar full blocks, and transposes and negates momentum and all spin-orbit blocks. The same holds for every gradient component.",
  ["inputs"], "All shell pairs with unequal angular momenta, contractions and centres, all operators, all gradients.",
  "The drivers write only one triangle of each matrix, so the other half of every block is never compared with anything.",
  ["overlap.c", "kinetic.c", "momentum.c", "type1_integrals.c", "type2_integrals.c", "spin_orbit_integrals.c", "outercore_integrals.c", "full_grpp_integrals.c", "nuclear_attraction.c", "grpp_integrals_gradient.c"],
  [("separate bra and ket code paths", "all integrators")],
  observe=["all integrators"])

p("C12", "Integrals are covariant under rigid motions of the whole system",
  "Translating all centres together leaves every block unchanged; rotating, reflecting or permuting axes of all centres together transforms every block exactly as the Cartesian components (and, for momentum, spin-orbit and gradient components, the vector or pseudovector index) transform. "
  "No direction of space and no position is special.",
  ["inputs"], "All shell pairs and operators, any translation, any proper or improper rotation, axis permutations and inversions.",
  "Every reference molecule is stored in one orientation; axis-aligned and linear geometries hide wrong x/y/z treatment.",
  ["overlap.c", "kinetic.c", "momentum.c", "type1_mcmurchie_davidson.c", "type2_integrals.c", "angular_integrals.c", "spherical_harmonics.c", "spin_orbit_integrals.c", "lmatrix.c", "outercore_integrals.c", "grpp_integrals_gradient.c", "overlap_gradient.c"],
  [("real spherical harmonics about the potential centre", "spherical_harmonics.c, angular_integrals.c")],
  observe=["all integrators"])

p("C13", "Integrals are linear in the contractions and in the potential expansion",
  "Every block is linear in the contraction coefficients of each shell and in the coefficients of the potential: splitting, reordering, duplicating or merging primitives or terms, inserting zero coefficients and scaling coefficients changes the result only as the algebra says. "
  "Outercore blocks are linear in the potential list's coefficients.",
  ["inputs"], "All shell pairs, contractions of any length, potentials of any length, all integrators.",
  "Contractions come from a few basis-set files; no test relates a contracted result to its primitives.",
  ["shell.c", "potential.c", "type2_integrals.c", "radial_type2_integral.c", "radial_type1_integral.c", "nuclear_attraction.c", "overlap.c", "kinetic.c", "momentum.c"],
  [("primitive loops and dropping of negligible terms", "all integrators; libgrpp_shell_shrink, libgrpp_shrink_potential")],
  observe=["all integrators"])

p("C14", "Integral families agree wherever their operators coincide",
  "Where two routines evaluate the same operator they agree: a constant local potential reproduces the overlap, a 1/r local potential reproduces the point-nucleus attraction, the numerically integrated point nucleus reproduces the analytic one, semilocal blocks summed over all l reached by a shell on the potential centre reproduce the local block. "
  "Momentum equals the derivative of overlap, kinetic energy is half the divergence of momentum.",
  ["inputs"], "All shell pairs, centres, potentials and powers for which the operators coincide.",
  "Each family is compared with its own stored numbers only; no test relates two families.",
  ["overlap.c", "type1_mcmurchie_davidson.c", "nuclear_attraction.c", "type2_integrals.c", "momentum.c", "kinetic.c", "overlap_gradient.c"],
  [("independent code paths for the same mathematics", "overlap.c, type1_mcmurchie_davidson.c, type2_integrals.c, radial_type1_integral.c")],
  observe=["libgrpp_overlap_integrals", "libgrpp_type1_integrals", "libgrpp_type2_integrals", "libgrpp_nuclear_attraction_integrals", "libgrpp_momentum_integrals"])

p("C15", "Positive operators give positive semidefinite matrices",
  "Over any set of shells the overlap and kinetic matrices, the local and semilocal matrices of non-negative potentials, and minus the nuclear attraction matrices are positive semidefinite up to rounding. The Cauchy-Schwarz bound holds for every pair of functions.",
  ["inputs"], "All finite sets of shells over any centres, any non-negative potential.",
  "No test looks at a matrix as a whole, and a single wrong block is enough to break a self-consistent-field calculation.",
  ["overlap.c", "kinetic.c", "type1_integrals.c", "type2_integrals.c", "nuclear_attraction.c"],
  [("consistent evaluation of all blocks", "all integrators")],
  observe=["libgrpp_overlap_integrals", "libgrpp_kinetic_energy_integrals", "libgrpp_type1_integrals", "libgrpp_type2_integrals", "libgrpp_nuclear_attraction_integrals"])

p("C16", "Integrals vary continuously through special geometries",
  "Moving a centre through a coincidence with another centre, onto an axis, or across any internal switch of method changes integrals smoothly: nearby geometries and exponents give nearby values, with no jump, spike, NaN or loss of accuracy at the switch.",
  ["inputs"], "All one-parameter families of geometries and exponents, with separations from 1e-12 to tens of bohr, for all integrators and gradients.",
  "Fixed geometries sit far from or exactly on the special cases; the neighbourhood of a switch is never sampled.",
  ["type2_integrals.c", "radial_type2_integral.c", "radial_type1_integral.c", "specfunc_boys.c", "specfunc_scaled_mod_sph_bessel.c", "screening.c", "spherical_harmonics.c", "grpp_integrals_gradient.c"],
  [("thresholds selecting one-centre, two-centre and general branches", "radial_type2_integral.c, screening.c, specfunc_*.c")],
  observe=["all integrators"])

p("C17", "Concurrent use gives the serial result without data races",
  "Once initialised, any number of threads may evaluate any integrals and gradients at the same time, sharing the same shells, potentials and pseudopotential objects (also placed at different centres by different threads), without any data race. "
  "Every result is bit-for-bit the one obtained serially.",
  ["schedules"], "All interleavings of any calls of the integral, gradient, object and nuclear-model interface over shared input objects.",
  "The suite runs with one thread because its multi-threaded runs are known to give wrong results.",
  ["outercore_integrals.c", "overlap_gradient.c", "grpp_integrals_gradient.c", "spherical_harmonics.c", "specfunc_scaled_mod_sph_bessel.c", "init_finalize.c", "factorial.c"],
  [("no shared mutable state after initialisation", "init_finalize.c and all integrators")],
  state=[("spherical harmonics and Bessel tables", "written once at initialisation, then read-only", "spherical_harmonics.c, specfunc_scaled_mod_sph_bessel.c"),
         ("outercore shell centre", "field of a caller-owned object", "outercore_integrals.c")],
  observe=["all integrators under ThreadSanitizer", "bitwise comparison with the serial run"])

p("C18", "Evaluation never modifies its inputs",
  "Shells, potentials, pseudopotential objects, coordinates and parameter arrays passed to any integral, gradient, nuclear-model or constructor call are bit-for-bit the same during and after the call, and read-only memory is acceptable for them. Objects built from caller arrays keep their own copies.",
  ["inputs", "histories"], "All calls of the integral, gradient, model and constructor interface, any inputs, inputs shared between calls.",
  "The tests never look at an input after a call; the damage only shows when an object is reused at another centre or by another thread.",
  ["outercore_integrals.c", "overlap_gradient.c", "shell.c", "potential.c", "grpp.c", "grpp_integrals_gradient.c"],
  [("private copies of arguments", "shell.c, potential.c, diff_gaussian.c")],
  observe=["inputs placed in read-only memory during calls", "input snapshots around calls"])

p("C19", "Output blocks are completely overwritten and nothing else is",
  "Each call writes every element of its output blocks, exactly (components of the left shell) x (components of the right shell) doubles in row-major order, independent of what the buffers held before, and writes nothing outside them. For finite inputs all elements are finite.",
  ["inputs"], "All integrators and gradients, all documented angular momenta, any prior buffer content, unequal left and right sizes.",
  "The drivers allocate oversized zeroed buffers and the comparison treats NaN as equal.",
  ["type1_integrals.c", "type2_integrals.c", "spin_orbit_integrals.c", "outercore_integrals.c", "full_grpp_integrals.c", "grpp_integrals_gradient.c", "overlap.c", "overlap_gradient.c", "kinetic.c", "momentum.c", "nuclear_attraction.c"],
  [("clearing and accumulating the output", "all integrators")],
  observe=["guard pages and canaries around output buffers filled with NaN"])

p("C20", "No invalid memory access or undefined behaviour on documented inputs",
  "No call with documented inputs (basis angular momenta up to 10, pseudopotential angular momenta up to 10, any contraction length, any geometry) reads or writes out of bounds, uses uninitialised or freed memory, overflows integers or otherwise executes undefined behaviour. None aborts.",
  ["inputs", "histories"], "All documented inputs of the whole C and Fortran interface, in any call sequence.",
  "The suite runs without sanitizers on L <= 5 or so; out-of-bounds reads that are multiplied by zero or land in padding do not change its numbers.",
  ["overlap.c", "kinetic.c", "momentum.c", "type1_mcmurchie_davidson.c", "type2_integrals.c", "spin_orbit_integrals.c", "overlap_gradient.c", "grpp_integrals_gradient.c", "diff_gaussian.c", "factorial.c", "grpp.c", "shell.c", "fortran.c"],
  [("fixed-size work arrays dimensioned by the maximum L", "overlap.c, kinetic.c, momentum.c, type1_mcmurchie_davidson.c, angular_integrals.c"), ("index lookup of Cartesian components", "diff_gaussian.c, grpp_integrals_gradient.c")],
  observe=["AddressSanitizer, UndefinedBehaviorSanitizer, MemorySanitizer, process exit status"])

p("C21", "Calls leak nothing and release exactly what they own",
  "Integral, gradient and model calls leave no allocation behind whatever path they take, deleting an object releases everything it owns exactly once and nothing it does not own, and initialise/finalise cycles return to the same number of live allocations. Memory use does not grow with the number of calls.",
  ["histories"], "All histories of object creation, use, copying, shrinking and deletion, and of init/finalize cycles, on all internal paths (screened, one-centre, empty, general).",
  "The tests exit right after use and never count allocations.",
  ["shell.c", "potential.c", "grpp.c", "init_finalize.c", "spherical_harmonics.c", "radial_type1_integral.c", "radial_type2_integral.c", "outercore_integrals.c", "grpp_integrals_gradient.c", "fortran.c", "utils.c"],
  [("paired constructors and destructors", "shell.c, potential.c, grpp.c, radial_type*_integral.c")],
  observe=["allocation ledger hooked on malloc/calloc/realloc/free", "LeakSanitizer"])

p("C22", "Results depend only on the arguments, not on history",
  "Repeating a call with the same arguments and settings gives bit-for-bit the same result, whatever calls were made before or in between, in whatever order, on whichever objects, after any finalise/initialise cycle, and wherever the objects live in memory. Settings that were changed and restored leave no trace.",
  ["histories"], "All call histories over the whole interface between two equal calls.",
  "Each driver run makes one pass over one molecule.",
  ["init_finalize.c", "parameters.c", "spherical_harmonics.c", "specfunc_scaled_mod_sph_bessel.c", "outercore_integrals.c", "grpp_integrals_gradient.c"],
  [("tables built once; no caches keyed by history", "init_finalize.c")],
  observe=["offline comparison of a recorded log of (arguments, result) pairs"])

p("C23", "Component order and a custom generator only permute blocks",
  "A shell of angular momentum l lists each of its (l+1)(l+2)/2 monomials exactly once, by default in the documented order (xx, xy, xz, yy, yz, zz, ...). Under any other order installed through the cartesian generator, every block and gradient is the same numbers with rows and columns permuted accordingly.",
  ["inputs", "configurations"], "All generators producing a permutation of the monomials, all l from 0 to 10, all integrators and gradients.",
  "Both drivers use the built-in order; the generator hook is never used, so code that assumes the default order passes.",
  ["parameters.c", "shell.c", "diff_gaussian.c", "grpp_integrals_gradient.c", "overlap_gradient.c", "outercore_integrals.c"],
  [("component lists carried by each shell", "shell.c, parameters.c")],
  observe=["libgrpp_set_cartesian_generator", "all integrators"])

p("C24", "Shell, potential and pseudopotential objects keep what they were given",
  "Constructors, deep copies and containers reproduce angular momenta, exponents, coefficients, powers, centres and order exactly and independently of the source; shrinking removes only negligible terms and never changes the represented function; the value of a potential at r is the sum of its terms. "
  "A pseudopotential object keeps all parts added to it, in order, however many.",
  ["inputs", "histories"], "All object contents (any length, any mixture of negligible and non-negligible coefficients) and any sequence of object operations.",
  "The drivers build each object once from a file and never shrink, copy or evaluate one on its own.",
  ["shell.c", "potential.c", "grpp.c"],
  [("copying constructors and in-place compaction", "shell.c, potential.c"), ("growing lists of parts", "grpp.c")],
  observe=["libgrpp_new_*", "libgrpp_shell_deep_copy", "libgrpp_shell_shrink", "libgrpp_shrink_potential*", "libgrpp_potential_value", "libgrpp_grpp_*"])

p("C25", "The Fortran interface returns what the C interface returns",
  "Every Fortran-callable entry point, given the data of shells, potentials, models and settings by reference, returns bit-for-bit the blocks, gradients and scalars the C interface returns for the same data, in the same places. Summed over the list, the separately exported outercore pieces give the C outercore result.",
  ["inputs"], "All Fortran entry points and all inputs they accept.",
  "The Fortran driver is run on three molecules without gradients of the parts, nuclear-model scalars or momentum; argument swaps that are symmetric there pass.",
  ["fortran.c", "test_libgrpp_f90/libgrpp.f90"],
  [("by-reference wrappers building temporary objects", "fortran.c")],
  observe=["all *_ symbols"])

p("C26", "Normalisation of primitives is as documented",
  "Each primitive carries the factor (2a/pi)^(3/4) (4a)^(l/2), so that in particular scaling all lengths scales every block by the power of the length its operator dictates. The radial normalisation service returns the factor that makes a contracted shell's spherical components unit-normalised for any contraction and l.",
  ["inputs"], "All l 0..10, exponents over many decades, contractions of any length.",
  "Norm factors occur with the few exponents and low l of the sample basis sets only.",
  ["norm_gaussian.c", "shell.c", "fortran.c"],
  [("norm factor applied to each primitive", "norm_gaussian.c"), ("radial GTO norm", "fortran.c")],
  observe=["libgrpp_overlap_integrals", "radial_gto_norm_factor_", "libgrpp_shell_mult_normcoef"])

p("C27", "Auxiliary special functions are accurate over their whole domain",
  "Boys, Dawson, G_n, scaled modified spherical Bessel, incomplete Fermi sums, factorials, binomials and real spherical harmonics agree with their mathematical definitions at every argument and order the library can request. In particular there is no bad table entry and no jump between table, series and asymptotic regions.",
  ["inputs"], "All orders and arguments in the domain, including every table cell and both sides of every seam.",
  "Tables have tens of thousands of entries; a handful of molecules touches a small fraction of them.",
  ["specfunc_boys.c", "specfunc_gfun.c", "specfunc_dawson.c", "specfunc_scaled_mod_sph_bessel.c", "specfunc_bessel_table.c", "specfunc_fermi_sk.c", "factorial.c", "binomial.c", "spherical_harmonics.c"],
  [("pretabulated Taylor expansions and asymptotic series", "specfunc_*.c")],
  observe=["the special functions themselves where linkable", "s-s integrals with swept exponents through the public interface"])

p("C28", "Accuracy settings affect accuracy only, and defaults can be restored",
  "Tightening a tolerance never makes results worse and loosening it changes each element by no more than a modest multiple of the tolerance relative to the block; settings take effect from the next call on and have no effect other than accuracy. Restoring the defaults restores the default results bit-for-bit.",
  ["configurations", "histories"], "All tolerance values from 0 to 1e-6, all orders of setting and restoring, all integrators.",
  "The drivers set one tolerance value and never change it.",
  ["parameters.c", "radial_type1_integral.c", "radial_type2_integral.c", "nuclear_attraction.c", "screening.c"],
  [("global tolerance record", "parameters.c")],
  state=[("tolerances", "process-wide settings", "parameters.c")],
  observe=["libgrpp_set_*_tolerance", "libgrpp_set_default_parameters", "all integrators"])

p("C29", "The drivers write exactly what the library computes, in any thread count",
  "For any molecule, basis set and pseudopotential file in the documented format, the C driver writes for each requested quantity the matrix the library yields for the molecule, with every atom, shell, potential part and element in place, independent of the number of OpenMP threads. The Fortran driver writes the same numbers for the quantities both provide.",
  ["inputs", "configurations", "schedules"], "All well-formed input files (elements with and without pseudopotential, repeated elements, general contractions, outercore blocks), all command-line selections, any thread count.",
  "Each driver is only run on its own fixed inputs with one thread; the two are never compared with each other.",
  ["test_libgrpp_c/main.c", "test_libgrpp_c/rpp.c", "test_libgrpp_c/basis.c", "test_libgrpp_c/molecule.c", "test_libgrpp_c/shell_list.c", "test_libgrpp_c/eval_integrals.c", "test_libgrpp_c/eval_integrals_grad.c", "test_libgrpp_c/print_matrix.c", "test_libgrpp_f90/evalints.f90", "test_libgrpp_f90/rpp.f90", "test_libgrpp_f90/basis.f90", "test_libgrpp_f90/libgrpp.f90", "outercore_integrals.c"],
  [("file readers and block assembly", "test_libgrpp_c/*.c, test_libgrpp_f90/*.f90")],
  observe=["matrix files written by the drivers"])

p("C30", "Initialisation is idempotent, thread-safe and truthfully reported",
  "After one or many initialisations, from one or many threads at once, the library is ready and reports so; after finalisation it reports not ready and can be initialised again any number of times with the same results. Redundant initialisations and finalisations are harmless, and a use before initialisation is refused rather than answered wrongly.",
  ["histories", "schedules"], "All sequences and interleavings of initialise, finalise, query and use.",
  "Each driver initialises once, from one thread.",
  ["init_finalize.c", "spherical_harmonics.c", "specfunc_scaled_mod_sph_bessel.c"],
  [("critical section and flag", "init_finalize.c")],
  state=[("initialised flag", "whether tables exist", "init_finalize.c")],
  observe=["libgrpp_init", "libgrpp_finalize", "libgrpp_is_initialized"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        f.write(json.dumps(q, ensure_ascii=True) + "\n")
print(len(P))
