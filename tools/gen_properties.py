#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(zip(("name", "meaning", "where"), s)) for s in state],
            mechanism=[dict(zip(("name", "where"), m)) for m in mech],
            observe_at=observe, hook_needed=hook)))

p("C01", "Background quantities solve the Friedmann and growth equations",
  "For every accepted cosmology (matter, baryon, radiation and dark-energy fractions, neutrinos, w0, wa, h) and redshift, a(z), H(z), the conformal Hubble rate and its derivative, the comoving distance, the growth factor D1 (D1(0)=1) and the growth rate f returned by the library equal the solution of the w0-wa Friedmann equation and of the linear growth equation to numerical accuracy. The comoving distance of a redshift converted back gives that redshift, and the background values do not depend on the table size beyond interpolation error.",
  ["inputs", "configurations"], "all cosmological parameter sets accepted by the setters, all redshifts 0<=z<~10, all background_sampling values large enough to resolve the tables",
  "The tests compare one cosmology (w0=-1, wa=0, fixed densities) against stored CLASS tables; dependence on w0, wa, radiation, h and on the sampling is never exercised.",
  ["src/background.c", "python/coffe/coffe.pyx", "src/common.c"],
  [("growth ODE integration and background tables", "src/background.c:coffe_background_init"), ("interpolation wrappers", "src/common.c:coffe_init_spline/coffe_interp_spline"), ("public accessors", "python/coffe/coffe.pyx: hubble_rate, comoving_distance, growth_factor, ...")],
  ["Coffe.scale_factor/hubble_rate/hubble_rate_conformal/hubble_rate_conformal_derivative/comoving_distance/growth_factor/growth_rate"],
  [("coffe_background_t", "splines of every background quantity in z", "src/background.h")])

p("C02", "Fourier-Bessel integrals and spectrum look-ups equal direct quadrature",
  "For every linear power spectrum given as a table (and negligible at the edges of its band, the usual condition for FFT-based transforms), each Fourier-Bessel integral the library computes, I^n_l(r) = 1/(2 pi^2) int P(k) j_l(kr)/(kr)^n k^2 dk over the configured k range, agrees with direct numerical quadrature of the same table at every separation the correlation functions use. Scaling P(k) by a constant scales every integral by that constant, and power_spectrum/cross_spectrum at (k, z1, z2) return the interpolated table value times the growth factors of the two redshifts.",
  ["inputs", "configurations"], "all tabulated spectra, all (n,l) pairs the library uses, all separations within (and at the edges of) the sampled range, all k_min/k_max and FFTLog sampling settings",
  "The tests compare with one stored table for one spectrum and a fixed list of separations.",
  ["src/integrals.c", "src/twofast.c", "src/common.c", "python/coffe/coffe.pyx"],
  [("FFTLog/2FAST transform", "src/twofast.c:twofast_1bessel"), ("quadrature for small r", "src/integrals.c:coffe_integrals_init"), ("dispatch on (n,l)", "src/integrals.c:coffe_find_integral")],
  ["Coffe.integral", "Coffe.power_spectrum", "Coffe.cross_spectrum"],
  [("coffe_integral_t", "one tabulated integral per (n,l,state)", "src/integrals.h")])

p("C03", "Full-sky local two-point terms equal the linear-theory operator expectation",
  "For every pair of non-integrated contributions (density, redshift-space distortions, the two Doppler terms, the three potential terms) the full-sky two-point correlation at (z, r, mu) equals the expectation value obtained by applying the two linear-theory operators to the matter correlation function in exact wide-angle geometry, with each population's own bias, magnification bias and evolution bias at its own redshift. The total of a set of contributions is the sum of those expectation values.",
  ["inputs", "configurations"], "all pairs of local contributions, all (z, r, mu), all biases/cosmologies",
  "Only the density-density, RSD-RSD, Doppler-Doppler autos and their sum are benchmarked, for one cosmology with identical populations.",
  ["src/functions.c", "src/corrfunc.c", "src/signal.c", "src/integrals.c"],
  [("per-pair formulas", "src/functions.c:functions_nonintegrated"), ("signal dispatch", "src/signal.c:coffe_integrate")],
  ["Coffe.compute_corrfunc", "Coffe.compute_corrfunc_bulk"],
  [("contribution flags", "which terms are switched on", "src/common.h: struct coffe_correlation_contributions")])

p("C04", "Integrated terms equal line-of-sight integrals of the operator kernels",
  "For every pair containing at least one line-of-sight contribution (lensing, Shapiro time delay, integrated Sachs-Wolfe), the full-sky two-point correlation equals the one- or two-dimensional line-of-sight integral of the corresponding operator kernel, within the accuracy of the configured integration sampling. Each population's own magnification and evolution bias enters the contribution of that population only, whichever of the two populations carries the integrated term.",
  ["inputs", "configurations"], "all integrated pairs, all (z, r, mu), both integration modes, all biases",
  "Only lensing-lensing and flat-sky density-lensing are benchmarked; cross terms with Doppler, potential, time-delay or ISW contributions are never compared with anything.",
  ["src/functions.c", "src/signal.c", "src/integrals.c"],
  [("1-D and 2-D kernels", "src/functions.c:functions_single_integrated/functions_double_integrated"), ("integration over the line of sight", "src/signal.c")],
  ["Coffe.compute_corrfunc"],
  [("renormalization table", "finite part of the I^4_0 integral on a 2-D grid of distances", "src/integrals.c")])

p("C05", "Flat-sky modes are the plane-parallel limit of the same operators",
  "With the flat-sky options on, the local, local-lensing and lensing-lensing correlation functions and multipoles equal the plane-parallel expressions (common redshift, cos theta = 1, Limber/flat-sky lensing) for every choice of biases, and converge to the full-sky value as r/chi goes to 0. The two-point function and its multipoles in these modes describe the same quantity: no contribution that is non-zero in one is silently dropped in the other.",
  ["inputs", "configurations"], "all flat-sky option combinations, (z, r, mu, l), populations",
  "Tests compare flat-sky density-lensing and lensing-lensing multipoles for one z and one cosmology; options and their combinations are not exercised.",
  ["src/functions.c", "src/signal.c", "src/integrals.c", "python/coffe/coffe.pyx"],
  [("flat-sky branches", "src/functions.c:functions_flatsky_*"), ("flat-sky integrals by l", "src/integrals.c:coffe_integrals_init (MULTIPOLE state)")],
  ["Coffe.compute_corrfunc", "Coffe.compute_multipole"])

p("C06", "Multipoles are the Legendre projections of the two-point function",
  "For every contribution set, redshift, separation and l, the multipole equals (2l+1)/2 times the integral over mu in [-1,1] of the library's own two-point function times the Legendre polynomial P_l(mu), to quadrature accuracy.",
  ["inputs", "configurations"], "all contributions, z, r, l=0..6 and integration settings",
  "The tests compare multipoles with stored files for three contribution sets; agreement with the library's own two-point function is never examined.",
  ["src/multipoles.c", "src/signal.c", "src/functions.c"],
  [("mu integration", "src/signal.c:coffe_integrate (MULTIPOLES branches)")],
  ["Coffe.compute_multipole", "Coffe.compute_multipoles_bulk", "Coffe.compute_corrfunc"])

p("C07", "Redshift-averaged multipoles are bin-weighted averages of multipoles",
  "For every redshift bin, the averaged multipole equals the mean, over the redshifts whose pairs of that separation fit into the bin (its ends moved inwards by r/2 in comoving distance), of H0/H(z) times the multipole at fixed redshift; in the limit of a bin as deep as the separation it tends to H0/H(z) times the fixed-redshift multipole.",
  ["inputs", "configurations"], "all bins z_min<z_max, separations, l and contribution sets",
  "One bin and one contribution set are compared to a stored file.",
  ["src/average_multipoles.c", "src/signal.c", "src/functions.c"],
  [("z-averaging kernels", "src/signal.c:coffe_integrate (AVERAGE_MULTIPOLES branches)")],
  ["Coffe.compute_average_multipole", "Coffe.compute_average_multipoles_bulk"])

p("C08", "Contributions superpose: totals decompose and scale as linear theory demands",
  "The correlation of any set of contributions equals the sum of all its auto and ordered cross pieces (so any set is reconstructed from its subsets of at most two), switching on only_cross_correlations removes exactly the auto pieces, and requesting no contribution is refused with an exception. All statistics scale linearly with P(k), and density pieces scale linearly with each population's galaxy bias.",
  ["inputs", "configurations"], "all subsets of the nine contributions, all statistics, all bias and amplitude factors",
  "The power set of contributions is never sampled; tests switch on three fixed sets.",
  ["src/functions.c", "src/signal.c", "python/coffe/coffe.pyx"],
  [("flag tests guarding every pair", "src/functions.c"), ("only_cross_correlations", "src/functions.c")],
  ["compute_corrfunc/compute_multipole/compute_average_multipole"])

p("C09", "Exchanging the two populations mirrors mu",
  "For every contribution set, exchanging all properties of population 1 with those of population 2 and mu with -mu leaves the two-point function unchanged; hence even multipoles are unchanged and odd multipoles change sign under the exchange. For identical populations the two-point function is even in mu and odd multipoles vanish.",
  ["inputs", "configurations"], "all pairs of populations (galaxy, magnification, evolution bias), contributions, (z, r, mu, l)",
  "Tests use identical populations or check that setters store two values; no metamorphic relation is tested.",
  ["src/functions.c", "src/signal.c", "src/background.c"],
  [("symmetrised pair formulas", "src/functions.c")],
  ["compute_corrfunc/compute_multipole"])

p("C10", "Covariances are symmetric, positive and split into cosmic, mixed and noise",
  "The covariance of the multipoles is symmetric under exchange of (l1,r1) with (l2,r2), positive semi-definite as a matrix over l and r, independent between redshift bins, and equals the sum of its cosmic, mixed and Poisson parts. It scales as 1/fsky, the mixed and Poisson parts scale with the inverse number densities and their products, and the same survey properties give the same matrix whatever other bins are requested alongside.",
  ["inputs", "configurations"], "all survey configurations (bins, densities, fsky, pixel sizes, separations, l lists, populations)",
  "Two configurations are compared with stored matrices; no structural relation is tested.",
  ["src/covariance.c", "python/coffe/coffe.pyx"],
  [("covariance assembly", "src/covariance.c:coffe_covariance_init"), ("volume, density and Poisson prefactors", "src/covariance.c")],
  ["Coffe.compute_covariance_bulk", "Coffe.compute_average_covariance_bulk"])

p("C11", "Covariance elements equal the Gaussian formula",
  "Every element of the multipole covariance equals the Gaussian covariance computed directly from the flat-sky power spectrum with Kaiser factors, growth, biases, number densities, survey volume and pixel sizes, to quadrature accuracy; the different integration methods and the bin-averaged option agree with the same formula.",
  ["inputs", "configurations"], "all (l1,l2), (r1,r2), populations, densities, integration methods, k ranges, windows",
  "Only two stored matrices are compared, with the default method and identical populations.",
  ["src/covariance.c", "src/twobessel.c", "src/twofast.c"],
  [("k-integrals by several methods", "src/covariance.c:covariance_integrate_*"), ("2D-FFTLog", "src/twobessel.c")],
  ["Coffe.compute_covariance_bulk", "Coffe.compute_average_covariance_bulk"])

p("C12", "Bulk results cover the requested grid once, in order, and equal single calls",
  "A bulk computation returns exactly one value per requested coordinate combination, each labelled with the coordinates it was computed for, in a fixed documented ordering, and each equal to what the corresponding single-point call returns. Adding, removing or permuting other requested coordinates does not change any value.",
  ["inputs", "histories"], "all coordinate lists (sizes 1.., unordered redshifts, many separations) for every bulk function",
  "The tests compare bulk output with files in one fixed order and never permute or subset the request.",
  ["src/corrfunc.c", "src/multipoles.c", "src/average_multipoles.c", "src/covariance.c", "python/coffe/coffe.pyx", "python/coffe/representation.py"],
  [("parallel grid loops", "src/*.c"), ("representation objects", "python/coffe/representation.py"), ("bulk wrappers", "python/coffe/coffe.pyx:compute_*_bulk")],
  ["compute_corrfunc_bulk, compute_multipoles_bulk, compute_average_multipoles_bulk, compute_covariance_bulk, compute_average_covariance_bulk"])

p("C13", "Results depend only on current parameters, never on the call history",
  "After any sequence of setter calls and computations, every query of a Coffe object returns what a freshly created object configured with the final parameter values returns. In particular no cached table, spectrum or result survives a change of a parameter it depends on, and reading parameters never changes a later result.",
  ["histories", "configurations"], "all interleavings of setters, getters, computations and reset calls on one object",
  "Tests set parameters once per object (or check a single re-set of a parameter) before one computation.",
  ["python/coffe/coffe.pyx"],
  [("cache invalidation in setters", "python/coffe/coffe.pyx:_free_*"), ("lazy initialisation", "python/coffe/coffe.pyx:_background_init/_integrals_init/_corrfunc_init/...")],
  ["every getter and compute_* of Coffe"],
  [("_power_spectrum_flag", "whether the spectrum is up to date", "python/coffe/coffe.pyx"), ("_background/_integral/_corrfunc/_multipoles/_covariance", "cached tables, flag says valid", "python/coffe/coffe.pyx")])

p("C14", "Configurations survive the trip through settings files and parameter dumps",
  "For every reachable configuration, writing it with to_file and reading it back with from_file, or passing the parameters dictionary to the constructor, yields an object with equal parameters, contributions, coordinates and biases and hence equal results. Every documented setting in a file takes effect.",
  ["configurations", "inputs"], "all settable parameters in all combinations, non-default biases, all contribution sets",
  "One default-like configuration is round-tripped and compared shallowly.",
  ["python/coffe/coffe.pyx", "src/parser.c"],
  [("to_file/from_file", "python/coffe/coffe.pyx"), ("parameters property", "python/coffe/coffe.pyx")],
  ["Coffe.to_file, Coffe.from_file, Coffe.parameters, Coffe(**parameters)"])

p("C15", "Setters store accepted values exactly and reject bad ones without side effects",
  "A value accepted by a setter is the value read back and the one used afterwards; derived fractions stay consistent so that the energy budget of matter, radiation and dark energy closes to one. A value outside the documented domain or of the wrong type raises a Python exception and leaves every parameter and every result of the object unchanged.",
  ["inputs", "histories"], "all properties of Coffe x all values, valid and invalid, in any order",
  "Tests try one or two bad values for a few setters and never check what the object looks like afterwards.",
  ["python/coffe/coffe.pyx"],
  [("_check_parameter and per-setter validation", "python/coffe/coffe.pyx"), ("derived densities", "python/coffe/coffe.pyx:omega_*/h/N_eff/T_cmb setters")],
  ["property getters after setter calls"])

p("C16", "No memory error or undefined behaviour in any supported use",
  "No sequence of API or command-line operations on any supported configuration makes the native code read or write outside an object, use freed or uninitialised memory, free twice, or execute undefined behaviour.",
  ["inputs", "histories", "configurations"], "all call sequences, configurations, coordinate list sizes, spectra tables and input files",
  "Tests run uninstrumented on a handful of configurations; out-of-bounds accesses and use-after-free usually go unnoticed.",
  ["src/*.c", "python/coffe/coffe.pyx"],
  [("manual memory management", "src/common.c, src/parser.c: *_free / *_init"), ("lifecycle of cached tables", "python/coffe/coffe.pyx:_free_*")],
  ["AddressSanitizer/UBSan reports on the real extension module and command-line program"])

p("C17", "Parallel loops are race-free and results do not depend on threads or schedule",
  "No two threads of a parallel region access the same memory location without synchronisation when at least one writes, and every result is the same, bit for bit, whatever the number of threads and however iterations are interleaved.",
  ["schedules", "inputs"], "all schedules and thread counts of every parallel region, all contribution sets and statistics",
  "Tests run with whatever schedule the machine produces and compare to tolerances wide enough to hide occasional corruption.",
  ["src/corrfunc.c", "src/multipoles.c", "src/average_multipoles.c", "src/covariance.c", "src/integrals.c", "src/background.c", "src/common.c"],
  [("OpenMP parallel for loops", "src/*.c"), ("shared interpolation tables read without accelerators", "src/common.c:coffe_interp_spline")],
  ["ThreadSanitizer reports with an instrumented OpenMP runtime; bitwise comparison of results over thread counts and schedules"])

p("C18", "Memory use stays bounded over an object's life: everything is released",
  "Creating, configuring, using and destroying objects any number of times releases all native memory: live native allocations after N repetitions of the same history do not grow with N, and none remain once the object is destroyed.",
  ["histories"], "all repeated histories of construct/set/compute/reset/destroy",
  "No test measures memory.",
  ["src/common.c", "src/parser.c", "src/integrals.c", "src/background.c", "src/covariance.c", "python/coffe/coffe.pyx"],
  [("*_free functions", "src/*.c"), ("__dealloc__ and _free_*", "python/coffe/coffe.pyx")],
  ["allocation ledger at the malloc boundary of the native code"])

p("C19", "Command-line programs produce the files the library's own results imply",
  "For every valid settings file, coffe-cli and 'python -m coffe' write, for the requested output type, files that contain one row per requested coordinate combination with the values the Python API returns for the same configuration, to the printed precision, and exit successfully. Running twice gives the same content.",
  ["configurations", "inputs"], "all output types, contribution sets, coordinate lists and bias inputs expressible in a settings file",
  "The command-line entry points are not run by any test.",
  ["src/main.c", "src/parser.c", "src/output.c", "python/coffe/__main__.py", "python/coffe/representation.py"],
  [("settings parser", "src/parser.c:coffe_parser_init"), ("output writers", "src/output.c:coffe_output_init"), ("python front end", "python/coffe/__main__.py")],
  ["output files and exit status of coffe-cli and python -m coffe"])

p("C20", "Malformed settings and data files fail cleanly",
  "Whatever the content of a settings file or of the data files it names, the programs either read it completely and correctly, or stop with an error message and a non-zero status; they never crash, hang, corrupt memory or silently use part of the data.",
  ["inputs", "fault_sequences"], "all byte contents of settings files, spectrum tables, separation files and bias tables; missing and unreadable files",
  "No test feeds a malformed file.",
  ["src/parser.c", "src/common.c", "src/main.c", "src/errors.c"],
  [("libconfig look-ups with error handling", "src/parser.c:parse_*"), ("column readers", "src/common.c:read_1col/read_2col/read_ncol")],
  ["exit status, stderr and sanitizer reports of coffe-cli"])

p("C21", "Independent objects do not influence each other",
  "Results of one Coffe object do not depend on the existence, configuration, use or destruction of any other Coffe object in the process, in whatever order their operations are interleaved; and using the library leaves the numeric state of the process (floating-point and error handling) as it found it.",
  ["histories"], "all interleavings of operations on several objects",
  "Tests use one object at a time.",
  ["python/coffe/coffe.pyx", "src/*.c"],
  [("per-object state", "python/coffe/coffe.pyx: cdef attributes of Coffe"), ("global GSL error handler switching", "src/*.c: gsl_set_error_handler_off")],
  ["results of interleaved objects against isolated runs"])

p("C22", "API calls return finite values or raise; they never kill the process",
  "Every public call with arguments of any value either returns finite numbers or raises a Python exception; it never terminates or crashes the interpreter and never returns NaN or infinity without an exception.",
  ["inputs", "histories"], "all public methods and properties, all finite and non-finite numeric arguments, calls in any order",
  "Tests call the API in the documented order with ordinary arguments.",
  ["python/coffe/coffe.pyx", "src/common.c", "src/errors.c"],
  [("argument checks before native calls", "python/coffe/coffe.pyx"), ("error paths calling exit", "src/errors.c, src/common.c:coffe_interp_spline")],
  ["exit status of the interpreter, returned values and exceptions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
