"""Technique and assurance texts of MANIFEST.json."""
ORC = "online oracle monitor: every returned element compared with an independent reference value"
TECH = dict(C01=ORC + " (binary128 moments)", C02=ORC + " (Laplace-transform quadrature)", C03=ORC + " (sampled projections)", C04=ORC + " (sampled projections and angular momentum)",
            C05=ORC + " (sampled projections)", C07=ORC + " (charge-cloud potentials integrated on spheres)", C09=ORC + "; sum rule over centres", C10=ORC + "; translational sum rule")
REL = "online relation monitor over executions: "
TECH.update(C06=REL + "full object against the sum of its parts", C11=REL + "exchange of the functions", C12=REL + "moved system turned back", C13=REL + "linear combinations of runs",
            C14=REL + "families that evaluate one operator", C15=REL + "spectrum and Cauchy-Schwarz of observed matrices", C16="online oracle monitor along shrinking distances")
TECH.update(C08="online oracle monitor: densities, potentials, charges and radii compared with independent formulas and quadrature", C23=REL + "runs under different cartesian orders permuted onto each other",
            C24="online checker of a model of the objects against every observable of the constructors, copies and accessors", C26=REL + "norms and self-overlaps of normalised shells",
            C28=REL + "runs under different settings", C30="online checker over init/finalize histories in forked processes: results bitwise equal to a fresh process")
TECH["C27"] = "online oracle monitor on the internal functions (every table cell and seam), binary128 references"
TECH.update(C17="ThreadSanitizer on concurrent evaluations over shared objects (OpenMP's locks modelled); results compared bitwise with the serial ones", C18="online monitor: inputs in write-protected memory during every call, snapshots compared afterwards",
            C19="online monitor: outputs in guarded memory with different fillings, compared bitwise", C20="AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer over generated and swept calls",
            C21="online allocation ledger (allocator wrapped at link time) over random histories", C22="offline checker over recorded (arguments, result) pairs of random histories",
            C25=REL + "Fortran entry points against the C calls, bitwise")
E_ = ("Exploration: thousands of randomised and systematically swept executions of the real code per run, each judged completely; no proof for inputs not executed. "
      "Trusts the oracle in harness/ (validated against closed forms and against itself with refined grids), the compilers and libm. ")
NOTE = {k: E_ for k in ("C01", "C02", "C03", "C04", "C05", "C07", "C09", "C10", "C06", "C11", "C12", "C13", "C14", "C15", "C16", "C08", "C23", "C24", "C26", "C28", "C30", "C27", "C17", "C18", "C19", "C20", "C21", "C22", "C25")}
NA = {}
