"""Tables of run.py: build flavours, the stages and case counts (quick, thorough) of every check, and the rules of the evidence files."""
C11 = ["-std=gnu11", "-g1"]
CXX = ["-O2", "-march=native"]
LD = ["-lquadmath", "-lm", "-lpthread"]
FLAVOURS = {
    # as the project builds it (optimised, OpenMP)
    "plain": dict(cc="gcc-13", cflags=C11 + ["-O2", "-fopenmp"], cxx="g++-13", cxxflags=CXX + ["-fopenmp"], ldflags=LD),
    # the allocator replaced at link time by a recording one (harness/wrapm.c)
    "wrap": dict(cc="gcc-13", cflags=C11 + ["-O2", "-fopenmp"], cxx="g++-13", cxxflags=CXX + ["-fopenmp"], aux=[("wrapm.c", "gcc-13", ["-std=gnu11", "-O1"])],
                 ldflags=["-Wl,--wrap=" + x for x in "malloc calloc realloc free reallocarray strdup aligned_alloc posix_memalign memalign".split()] + LD),
    "tsan": dict(cc="gcc-13", cflags=C11 + ["-O1", "-fopenmp", "-fsanitize=thread"], cxx="g++-13", cxxflags=["-O1", "-g1", "-march=native", "-fsanitize=thread"],
                 aux=[("gomp_ts.c", "gcc-13", ["-std=gnu11", "-O1", "-fsanitize=thread"])], ldflags=LD + ["-lgomp"],
                 env={"TSAN_OPTIONS": "halt_on_error=1 exitcode=66 log_path=@OUT@/san"}),
    "asan": dict(cc="gcc-13", cflags=C11 + ["-O1", "-fopenmp", "-fsanitize=address,undefined,bounds-strict,float-cast-overflow", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
                 cxx="g++-13", cxxflags=["-O1", "-g1", "-fsanitize=address,undefined"], ldflags=LD + ["-lgomp"],
                 env={"ASAN_OPTIONS": "detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1", "UBSAN_OPTIONS": "print_stacktrace=1"}),
    "msan": dict(cc="clang-18", cflags=C11 + ["-O1", "-fsanitize=memory", "-fsanitize-memory-track-origins", "-fno-sanitize-memory-param-retval", "-fno-omit-frame-pointer"],
                 cxx="clang++-18", cxxflags=["-O1", "-g1", "-fsanitize=memory", "-fsanitize-memory-track-origins", "-fno-sanitize-memory-param-retval"], ldflags=LD, env={}),
}
CHECKS = {}
RULES = {}


def check(prop, *stages, **k):
    CHECKS[prop] = dict(stages=list(stages), **k)


def st(tu, quick, thorough, **k):
    return dict(tu=tu, cases=(quick, thorough), **k)


ORACLE = ["the oracle of harness/oracle.hpp (binary128 moments, Laplace-transform quadrature, projections sampled on spheres) is right; it shares no code with the library"]
check("C01", st("c_ref", 4500, 120000), assumptions=ORACLE)
check("C02", st("c_ref", 5000, 100000), assumptions=ORACLE)
check("C03", st("c_ref", 3000, 60000), assumptions=ORACLE)
check("C04", st("c_ref", 3000, 60000), assumptions=ORACLE)
check("C05", st("c_ref", 2400, 45000), assumptions=ORACLE)
check("C07", st("c_ref", 4500, 90000), assumptions=ORACLE)
check("C09", st("c_ref", 2000, 35000), assumptions=ORACLE)
check("C10", st("c_ref", 6000, 150000), assumptions=ORACLE)
FNS = ["boys_function", "boys_values", "gfun_derivative_values", "modified_bessel_scaled", "specfunc_fermi_sk", "Dawsons_Integral", "factorial", "factorial_ratio", "double_factorial", "binomial",
       "evaluate_real_spherical_harmonic", "evaluate_real_spherical_harmonics_array"]
check("C27", st("c_spec", 150000, 8000000, extra=[("p_fn.c", "gcc-13", ["-std=gnu11", "-O1", "-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types", "-Werror=int-conversion", "-DFN=%d" % (i + 1), ], f) for i, f in enumerate(FNS)]),
      assumptions=["the series, quadratures and recursions of harness/c_spec.cpp in binary128 are right"])
META = ["the size of the rounding errors tolerated follows from the scales computed by harness/oracle.hpp"]
check("C06", st("c_meta", 2000, 45000), assumptions=META)
check("C11", st("c_meta", 2500, 60000), assumptions=META)
check("C12", st("c_meta", 2000, 45000), assumptions=META)
check("C13", st("c_meta", 800, 18000), assumptions=META)
check("C14", st("c_meta", 2500, 60000), assumptions=META)
check("C15", st("c_meta", 600, 12000), assumptions=META)
check("C16", st("c_meta", 6000, 200000), assumptions=ORACLE)
check("C08", st("c_nuc", 60000, 2000000), assumptions=["the closed forms and quadratures of harness/c_nuc.cpp (binary128 and long double) are right"])
check("C23", st("c_obj", 4000, 90000), assumptions=META)
check("C24", st("c_obj", 30000, 1000000), assumptions=[])
check("C26", st("c_obj", 4000, 90000), assumptions=META)
check("C28", st("c_obj", 2200, 40000), assumptions=META)
check("C30", st("c_obj", 300, 8000), st("c_thr", 60, 2500, name="C30T", flavour="tsan"), st("c_thr", 100, 3000, name="C30P"), assumptions=[])
check("C17", st("c_thr", 150, 6000, flavour="tsan"), st("c_thr", 800, 20000), assumptions=META)
check("C18", st("c_mem", 10000, 300000, flavour="wrap"), assumptions=[])
check("C19", st("c_mem", 6000, 180000, flavour="wrap"), assumptions=[])
check("C20", st("c_san", 80, 2500, exec=("x_san", "asan"), enough="chunks_completed"), st("c_san", 70, 2500, name="C20M", exec=("x_san", "msan"), enough="chunks_completed"), assumptions=[])
check("C21", st("c_mem", 2300, 60000, flavour="wrap"), assumptions=[])
check("C22", st("c_mem", 1600, 40000, flavour="wrap"), assumptions=META)
check("C25", st("c_fort", 8000, 250000), assumptions=[])
G = ("Cases are drawn from (seed, property, case number): thirteen geometry classes (generic, coincident pairs, collinear, coplanar, symmetric, displaced, close, lattice, equidistant), "
     "contractions of 1..25 primitives, signed and cancelling coefficients. ")
for _p, _t in dict(C01="Non-trivial: the largest reference element exceeds 1e-13; every element of every block is compared with the reference.",
                   C02="Non-trivial: the largest reference element exceeds 1e-13; potentials mix the powers 0..2, exponents from 0 to 1e5, and the argument of the auxiliary functions is aimed at.",
                   C03="Non-trivial: the largest reference element exceeds 1e-13; projectors up to l=10.",
                   C04="Non-trivial: the largest reference element exceeds 1e-13; all three components compared, projectors up to l=10.",
                   C05="Non-trivial: the largest reference element exceeds 1e-13; 0..4 outercore functions, equal and different l and j, all four matrices compared, twice with different stored centres.",
                   C07="Non-trivial: the largest reference element exceeds 1e-13; all six nuclear models, realistic to inflated radii; the model-specific entry points compared bitwise.",
                   C09="Non-trivial: the largest reference element exceeds 1e-13; differentiation at A, B, C (coincident or not) or elsewhere; a quarter also checks the sum rule and the vanishing gradient.",
                   C10="Non-trivial: the largest reference element exceeds 1e-13; differentiation at A or B or elsewhere, also closer than any screening distance.",
                   C06="Non-trivial: the largest element exceeds 1e-13; 0..17 semilocal and spin-orbit parts, 0..4 outercore parts; a quarter are gradients; every object also built in reverse order.",
                   C11="Non-trivial: the largest element exceeds 1e-13; all twenty families (integrals, nuclear models, gradients) in turn.",
                   C12="Non-trivial: the largest element exceeds 1e-13; signed axis permutations, rational rotations and reflections (coordinates exact), translations, for all twenty families.",
                   C13="Non-trivial: the largest element exceeds 1e-13; sums over primitives and terms, scaling, reversal, splitting, zero terms, for all twenty families.",
                   C14="Non-trivial: the largest element exceeds 1e-13; pairs of families evaluating one operator.",
                   C15="Non-trivial: at least two functions the operator reaches; matrices over 2..4 shells (dimension up to 70), diagonalised after normalising by the diagonal.",
                   C16="Non-trivial: the largest reference element exceeds 1e-13; distances from 1 down to 1e-17 in six kinds of near coincidence, each judged against the oracle.").items():
    RULES[_p] = G + _t
RULES.update(
    C08="Non-trivial: every case (a nucleus with random charge, radius, skin and k, or a mass number); densities and potentials at sixteen radii from 1e-9 bohr outwards, total charge and rms radius by quadrature, the estimated Fermi parameters reproduce the radius they were asked for.",
    C23=G + "Non-trivial: the largest element exceeds 1e-13; orders are random permutations, reversed and the default, switched between construction and evaluation, for all twenty families.",
    C24="Non-trivial: every case (a random history of up to twenty constructions, copies, additions, shrinks and reads, checked against a model of the objects after each step, with the sources scribbled over).",
    C26=G + "Non-trivial: every case; normalisation factors against the closed form, unit self-overlap of the normalised contraction.",
    C28=G + "Non-trivial: the largest element exceeds 1e-13; five settings of the tolerances per case, restored afterwards, for all families.",
    C30="Non-trivial: every case (a history of init, finalize and evaluations in a fresh process, compared bitwise with a process initialised once).")
RULES.update(
    C17=G + "Non-trivial: every case (2..8 threads started together over shared objects, each with its own list of calls in all families; injected yields; results compared bitwise with the serial run); the first stage under ThreadSanitizer.",
    C18=G + "Non-trivial: every case; inputs of all families, constructors and Fortran entry points live in pages that are read-only during the call.",
    C19=G + "Non-trivial: every case; output blocks end at guard pages or lie between canaries, filled with NaN and with different patterns; all elements written and finite.",
    C20=G + "Non-trivial: every integral case; all families swept over pairs of angular momenta 0..10 and random extreme inputs, executed by processes under ASan+UBSan and under MSan in chunks of 30.",
    C21=G + "Non-trivial: every case (histories of constructions, copies, evaluations in all families, deletions, init/finalize; live allocations counted after each step, double and foreign frees detected).",
    C22=G + "Non-trivial: every case (a pool of calls repeated in random order between other calls, settings, finalize/init cycles and heap perturbation; recorded results compared bitwise).",
    C25=G + "Non-trivial: every case; every Fortran entry point, argument blocks shared and distinct, results compared bitwise with the C interface.")
RULES["C27"] = ("Non-trivial: every case. The first 7000 cases are a sweep of every table cell (eight arguments in each, all orders up to 22 or 24), of the integer functions and of directions on the sphere; "
                "the others draw arguments at random and within 1e-16..1e-2 of every seam.")
