"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": observe, "hook_needed": hook}})

p("C01", "Numerical quadrature equals the composite rule for every array",
  "For every integrand and grid of equal length with at least two points, the native integrator returns, up to floating-point rounding, the composite trapezoidal sum, or the composite Simpson sum when Simpson's rule is requested on an equally spaced grid with an odd number of points (in every other case Simpson's rule falls back to the trapezoidal sum). "
  "The result does not depend on the requested thread count or on the parallel flag, is the same on every repetition, and the input arrays are left untouched.",
  ["inputs", "configurations"], "all array lengths >= 2, all grid spacings and values, both methods, equal/unequal spacing, thread counts and parallel flags",
  "The googletest program integrates one five-point array; index arithmetic errors that need other lengths, unequal grids or large arrays are never exercised.",
  ["cpp-numintegrator/num_integrator/num_integration.cpp", "cpp-numintegrator/num_integrator/libcpp_num_integrator.pyx"],
  [("trapezoid and Simpson loops", "NumericalDoubleInputIntegrator in num_integration.cpp"), ("Python entry point", "integrate() in libcpp_num_integrator.pyx")],
  ["return value of the Python-level integrate() call", "input arrays after the call"])

p("C02", "Native kernels never read or write outside the arrays they are given",
  "Whatever arrays a caller passes to the native quadrature, limb-darkening, disc-integral, finite-difference or histogram kernels (empty, single-element, mismatched lengths, strided, filled with NaN or infinities), the kernel either computes a result or raises a Python exception. "
  "It never reads or writes memory outside these arrays, never leaves an output array partly unwritten without raising an error, and never executes undefined behaviour.",
  ["inputs"], "all argument shapes, strides, lengths and values accepted by the Python signatures",
  "The tests only pass well-formed contiguous arrays to uninstrumented builds, where an out-of-bounds access is silent.",
  ["cpp-numintegrator/num_integrator/libcpp_num_integrator.pyx", "cpp-numintegrator/num_integrator/num_integration.cpp", "cpp-ld-funcs/ld_funcs/libcpp_ld_funcs.pyx", "cpp-ld-funcs/ld_funcs/ld_functions.cpp", "cpp-disc-integrator/disc_integrator/libcpp_disc_integration.pyx", "cpp-disc-integrator/disc_integrator/disc_integrals.cpp", "fornberg-num-deriv/fornberg_num_deriv/fornberg.f90", "histogram_maker/hogg_jacky/cython_jacky"],
  [("buffer hand-over by pointer to first element", "the .pyx wrappers"), ("loop bounds", "the C++/Fortran kernels and the nogil Cython histogram loops")],
  ["sanitizer reports", "exceptions at the Python boundary", "guard bands around the arrays"])

p("C03", "Parallel evaluation is race-free and gives the serial result",
  "Every numerical routine that accepts a thread count or a parallel switch (quadrature, limb darkening, disc integrals, angular integrals, compiled histograms) returns the same values as its serial evaluation, for every thread count and on every repetition. "
  "No data race occurs between its worker threads.",
  ["schedules", "inputs"], "all thread interleavings, thread counts 1..16 and array sizes",
  "The tests run each routine once on tiny arrays and compare to a constant; a lost update or a missing private clause only shows under particular schedules.",
  ["cpp-ld-funcs/ld_funcs/ld_functions.cpp", "cpp-numintegrator/num_integrator/num_integration.cpp", "cpp-disc-integrator/disc_integrator/disc_integrals.cpp", "histogram_maker/hogg_jacky/cython_jacky"],
  [("OpenMP parallel-for loops", "ld_functions.cpp, num_integration.cpp"), ("prange loops", "cython_jacky_*.pyx")],
  ["ThreadSanitizer reports", "bitwise or rounding-level comparison of results"])

p("C04", "Limb darkening and disc integrals equal their defining integrals",
  "The Eddington limb-darkening values equal 1 + 1.5*mu element by element. "
  "For every equally spaced grid of mu that covers the visible disc in either direction, the two disc integrals equal the quadrature, over only the points with 0 <= mu <= 1, of mu*Theta*h(mu) and of (2*mu*Theta' + (mu^2-1)*Theta'')*h(mu)*mu respectively, for every choice of integration rule; points outside the visible hemisphere have no influence, the results are linear in the angular function, and inputs are not modified.",
  ["inputs", "configurations"], "all grids, angular functions and derivatives, integration rules, thread counts and parallel flags",
  "The googletest programs use one five-point example; selection of the visible half and pairing of the arrays are not varied.",
  ["cpp-ld-funcs/ld_funcs/ld_functions.cpp", "cpp-disc-integrator/disc_integrator/disc_integrals.cpp", "cpp-disc-integrator/disc_integrator/libcpp_disc_integration.pyx"],
  [("limb-darkening laws", "ld_functions.cpp"), ("selection of the visible disc and integrand assembly", "disc_integrals.cpp")],
  ["values returned by the Python entry points"])

p("C05", "Numerical derivatives are exact on polynomials and linear in the data",
  "On every strictly monotonic grid, uniform or not, the finite-difference derivatives of requested order are exact (up to rounding) for polynomials up to the formal accuracy of the chosen scheme, are linear in the data, and commute with shifting or scaling the grid. "
  "One derivative array per order that is requested and supported by the scheme (the interior-point schemes give the first derivative, boundary points of the stencil scheme excluded), of the same length as the data, is returned in increasing order of differentiation.",
  ["inputs", "configurations"], "all grids (length, spacing, direction), polynomial data, derivative orders and the three differentiation methods",
  "The tests compare a handful of fixed functions at loose tolerance on one grid; stencil mistakes at the edges, for odd accuracies or non-uniform grids are not reached.",
  ["num-tools/num_deriv/num_deriv.py", "num-tools/num_deriv/stencils.py", "fornberg-num-deriv/fornberg_num_deriv/fornberg.f90"],
  [("Fornberg weights and stencil placement", "fornberg.f90"), ("method dispatch", "NumericalDifferentiator.differentiate")],
  ["arrays returned by the differentiator and by the compiled Fornberg entry point"])

p("C06", "Hough functions solve the Laplace tidal problem they are asked for",
  "For every admissible degree, order, spin parameter and resolution, the computed radial Hough function and its eigenvalue satisfy Laplace's tidal equation, have definite equatorial parity, and are normalised as documented. "
  "The horizontal and toroidal Hough functions and all returned latitudinal derivatives are mutually consistent with it in every supported convention, and without rotation the eigenvalue is l(l+1) and the functions are the associated Legendre functions.",
  ["inputs", "configurations"], "all l, m, spin parameters, node counts and function conventions",
  "The tests compare two modes at fixed spin with stored numbers; identities over the whole (l, m, spin) space and in other conventions are not checked.",
  ["hough-func-tools/hough_function/hough_function.py", "hough-func-tools/hough_function/hough_normalizer.py", "hough-func-tools/cheby_transform/cheby_transform.py"],
  [("Chebyshev collocation eigenproblem", "HoughFunction"), ("normalisation", "HoughNormalizer")],
  ["attributes of the Hough function objects"])

p("C07", "Chebyshev collocation operators are exact on polynomials",
  "For every node count, the collocation nodes are the Chebyshev nodes, transforming values to coefficients and back is the identity, and the differentiation operators return the exact derivatives, at the nodes, of every polynomial that the nodes can represent, for even and odd parity bases alike.",
  ["inputs", "configurations"], "all node counts, all representable polynomials, both parity bases",
  "One resolution is used by the tests; off-by-one recurrences that depend on node count or parity stay hidden.",
  ["hough-func-tools/cheby_transform/cheby_transform.py"],
  [("coefficient and differentiation matrices", "ChebyTransform")],
  ["matrices and node arrays returned by the transform object"])

p("C08", "Histograms conserve the sample mass",
  "For every sample with at least two distinct values, every bin number, width or edge choice that covers it, and linear or logarithmic scaling, every histogram implementation counts each observation exactly once in the bin whose edges enclose it: counts sum to the number of observations, empirical probabilities sum to one, empirical densities times the bin widths sum to one. "
  "Bin edges are increasing, equally spaced (in log space when asked for) and run from the smallest to the largest observation, one bin per requested bin (empty ones included), missing samples (NaN) carry no weight, a sample exactly on an inner edge belongs to the bin that starts there (linear bins) or ends there (logarithmic bins) in every implementation, the order of the samples is irrelevant, and the input array is left unchanged.",
  ["inputs", "configurations"], "all sample arrays, bin widths, smoothing parameters, implementations and linear/log scaling",
  "The tests check one sample against stored arrays.",
  ["histogram_maker/hogg_jacky"],
  [("binning", "cython_jacky_binning.pyx, numpy_iterator_jacky.py, numexpr_jacky.py, blas_jacky.py"), ("probability/density conversion", "cython_jacky_empirical_*.pyx and the shared helpers")],
  ["arrays returned by the histogram functions"])

p("C09", "Jackknife histogram picks the likelihood optimum, same in every variant",
  "The number of bins and the smoothing parameter chosen by the automatic histogram maximise the leave-one-out (jackknife) log-likelihood of Hogg (2008), sum_i N_i ln[(N_i + alpha - 1) / (width_i (sum_k (N_k + alpha) - 1))], among all candidates supplied for which it is defined. "
  "The interchangeable implementations (compiled, BLAS, NumPy, numexpr; linear or logarithmic; verbose or not; serial or parallel) return the same histogram, edges, bin width and binning parameters for the same data, and agree on samples that cannot be binned.",
  ["inputs", "configurations"], "all sample arrays, candidate bin widths and smoothing parameters, implementations",
  "The tests compare against frozen outputs per implementation rather than with each other or with the likelihood definition.",
  ["histogram_maker/hogg_jacky"],
  [("leave-one-out likelihood", "jackknife functions of the implementations"), ("argmax over candidates", "shared_computation_functions.py and implementations")],
  ["returned histogram, edges, bin width, smoothing parameter"])

p("C10", "Mode combination generators enumerate every combination exactly once",
  "For every collection of distinct modes, the Cartesian, single-set and symmetric-product generators and the mode-input generator built on them list every admissible combination exactly once and no other, in a reproducible order and with the advertised cardinality. With one radial-order range for both daughters each unordered pair appears once; with two ranges each ordered pair (first daughter from the first range, second from the second) appears once. "
  "Each generated triad keeps its members in the roles they were given (parent first, daughters after), and the derived radial-order statistics are those of that triad.",
  ["inputs"], "all list lengths (including zero and one), repeated elements, tuple sizes and mode-number assignments",
  "Tests enumerate one small fixed set.",
  ["py-combinations/py_combinations", "aesolver/aesolver/mode_input_generator/input_generator.py"],
  [("combination generators", "CartesianCombos, SingleSetCombos, SymmetricProductCombos"), ("mode triads", "InputGen")],
  ["generated lists and statistics arrays"])

p("C11", "Pairing functions are invertible and injective",
  "For every tuple of non-negative integers within the supported range, each pairing function returns a non-negative integer and its inverse recovers the tuple, order-insensitively for the symmetric pairing. "
  "Distinct tuples (as unordered pairs for the symmetric pairing) never share a code, and codes decode and re-encode to themselves.",
  ["inputs"], "all pairs, including very large values beyond 2^53",
  "Tests pair a few small numbers; collisions from rounding in square roots need large inputs.",
  ["py-combinations/pairing_functions"],
  [("pairing formulas and inverses", "cantor_pairing.py, symmetric_pairing.py, xie_pairing.py")],
  ["return values"])

p("C12", "Mode frequencies, spins and detunings obey their physical relations",
  "For every set of mode frequencies and azimuthal orders of a rotating star, and every rotation rate and unit system, inertial and corotating frequencies differ by exactly m times the rotation rate, the spin parameter is twice the rotation rate over the corotating frequency, and angular and cyclic or dimensionless values differ by the documented factors. "
  "The detuning of a triad is the parent frequency minus the sum of the daughter frequencies, linear driving rates and quality factors are consistent with these, conversions there and back are the identity, and the adiabatic quantities do not change when non-adiabatic data arrive.",
  ["inputs", "configurations"], "all frequencies, m, rotation rates, unit systems, frames and mode-combination signs",
  "Tests use one stellar model and one unit system.",
  ["aesolver/aesolver/frequency_handling/frequency_handler.py", "aesolver/aesolver/frequency_handling/enumeration_files/enumeration_freq_converter_normalization.py"],
  [("unit and frame conversion", "FrequencyHandler and ConversionUnits")],
  ["properties of the frequency handler"])

p("C13", "Stationary amplitudes are a fixed point of the amplitude equations",
  "For every resonant triad of three different modes with a driven parent and damped daughters that is reported as equilibrated, the reported stationary amplitudes and relative phase (modulo pi, the sign of the coupling coefficient) make every time derivative of the quadratic amplitude equations vanish, and the reported threshold amplitude is the smallest parent amplitude at which the daughters are unstable. "
  "Triads for which no such stationary state exists are flagged as not equilibrated and get zero amplitudes, and surface flux variations are the amplitudes times the modulus of the disc-averaged surface perturbation and the observer's Hough function value. "
  "Amplitudes scale inversely with the coupling coefficient, follow the daughters when these are exchanged, and do not depend on the unit of time.",
  ["inputs"], "all growth/damping rates, detunings, coupling coefficients, eigenfunctions and frequencies",
  "Tests compare stored values for one triad.",
  ["aesolver/aesolver/stationary_solving/three_mode/three_mode_stationary.py"],
  [("closed-form stationary solution", "ThreeModeStationary")],
  ["properties of the stationary solver"])

p("C14", "Stability verdicts agree with the linearised amplitude equations",
  "A triad (of three modes, or harmonic: a daughter coupling with itself; with driven parent and damped daughters or the reverse) is reported linearly stable exactly when all eigenvalues of the Jacobian of the real amplitude-phase equations at its stationary point have negative real part, and never when it has no stationary point. "
  "The Jacobians returned are those of these equations, a point is reported hyperbolic exactly when no eigenvalue of its Jacobian lies on the imaginary axis (undefined Jacobians are not), and the sum-of-growth-rates verdict is true exactly when the rates sum to a negative number.",
  ["inputs"], "all growth rates, detunings, frequencies and coupling coefficients",
  "Tests check stored verdicts for one triad; sign slips in one matrix entry change verdicts only in part of parameter space.",
  ["aesolver/aesolver/stability_checker"],
  [("Routh-Hurwitz type conditions", "three_mode/stab_checker_quadratic_three_sum.py"), ("Jacobian eigenvalues", "hyperbolicity/hyperbolicity_checker.py")],
  ["verdicts returned by the checkers"])

p("C15", "Selection rules accept exactly the triads that can couple",
  "A triad passes the azimuthal rule exactly when the parent's azimuthal order equals the sum of those of the daughters, and the meridional rule exactly when the sum of its meridional orders is even, whatever the degrees, orders and naming of the modes. "
  "The overall pre-check accepts exactly the triads for which every requested individual rule holds, and asking twice gives the same verdict.",
  ["inputs"], "all (l, m, n) assignments, mode numbering and check configurations",
  "Tests try a few triads in one numbering.",
  ["aesolver/aesolver/pre_checks"],
  [("azimuthal and meridional rules", "generic/generic_quadratic_checks.py"), ("three-mode checks", "specific/three_mode_checks.py")],
  ["verdict of the pre-check objects"])

p("C16", "Eigenfunction normalisation makes every mode carry the reference energy",
  "For eigenfunctions of any kind (real or complex), after normalisation, the mode energy recomputed from the returned eigenfunctions equals the reference energy, all displacement and perturbation components of a mode are multiplied by one and the same complex factor (so ratios are unchanged), normalising again changes nothing, and the result does not depend on the scale of the input eigenfunctions.",
  ["inputs", "configurations"], "all eigenfunctions, stellar profiles, degrees and input amplitudes",
  "Tests normalise one mode.",
  ["gyre-tools/gyre_eigen_norm", "aesolver/aesolver/coupling_coefficients/coefficient_support_classes"],
  [("normalisation factor", "GYREEigenFunctionNormalizer"), ("mode energies", "super_coupling_coefficients.py")],
  ["normalisation factors and energies"])

p("C17", "Saved results read back as exactly what was computed",
  "Every result file written for a triad contains, under the documented names, the very numbers held by the solver that wrote it: integers, reals, complex values, booleans, strings, missing values and arrays all read back equal. "
  "A second write to the same file in overwrite mode replaces the values it writes (whatever their shape) and adds new ones, in append mode it adds new ones and keeps those that exist; either way no other stored value is disturbed. Different triads never end up in the same file, and the file name identifies the triad and lies inside its sub-directory.",
  ["inputs", "histories"], "all result values, save formats and sequences of writes",
  "Tests write one file with one set of values.",
  ["aesolver/aesolver/data_handling"],
  [("collecting values", "unpacker.py"), ("writing groups and data sets", "data_specific/hdf5_saver.py and hdf5_specific")],
  ["contents of the written HDF5 file"])

p("C18", "Model selection and loading return exactly the files and values asked for",
  "From any directory of model files, the file selected for a mode request is exactly the one whose name carries the requested degree, azimuthal order and radial order with the requested mode type, and a request that matches no file or several files is rejected. "
  "Values loaded from the selected file equal those in the file up to the documented unit conversion, and dimensioned quantities are the dimensionless ones times the correct power of mass, radius and the gravitational constant.",
  ["inputs", "configurations"], "all directory contents, quantum numbers (several digits, both signs), mode types and unit systems",
  "Tests select from a fixed folder with single-digit quantum numbers.",
  ["aesolver/aesolver/model_handling"],
  [("file name filters", "subselection_classes.py, read_models.py"), ("unit conversion and dimensionalisation", "load_models.py, enumeration_files/enumeration_dimensions.py")],
  ["selected paths and loaded dictionaries"])

p("C19", "Polytropic structure obeys the stellar structure equations",
  "For every polytropic index above zero, mass and radius, the derived structure satisfies hydrostatic equilibrium, Poisson's equation and the mass equation along the whole profile, has the requested mass and radius at the surface, and the returned derivatives, frequencies and dimensionless structure functions equal those computed from the structure itself.",
  ["inputs"], "all polytropic indices, masses, radii and grids",
  "Tests compare one stored polytrope.",
  ["aesolver/aesolver/polytropic_computations"],
  [("structure formulas", "PolytropicStructureComputations in poly_struct_comps.py")],
  ["property dictionary"])

p("C20", "Coupling coefficients have the symmetries of the interaction",
  "The quadratic coupling coefficient of adiabatic modes of a rotating star is the integral over the star of the third-order interaction energy of Lee (2012): each contributing term equals the direct contraction of the strain tensors of the three modes, integrated over the sphere and the radius. "
  "It vanishes for triads that violate the selection rules, is unchanged when the two daughter modes are exchanged or when an input eigenfunction is rescaled, and scales with the normalisation as documented. "
  "The total equals the sum of its contributing terms and the surface value of its radial profile, and a mode coupling with itself through the dedicated path gives the same value as the general path.",
  ["inputs", "configurations"], "all eigenfunctions, structure profiles, Hough functions, quantum numbers and daughter orderings",
  "Tests compare stored numbers for one synthetic triad.",
  ["aesolver/aesolver/coupling_coefficients"],
  [("contributing kernels", "quadratic_coupling_coefficient_rotating.py"), ("radial/angular products", "super_coupling_coefficients.py")],
  ["coupling coefficient properties and profile"])

p("C21", "Angular integrals are the integrals of the Hough-function products",
  "An angular integral over the sphere equals two pi times the latitudinal integral of the product of the requested functions, with the requested complex conjugations and powers of sine or cosine of colatitude, and is zero whenever the azimuthal orders do not cancel. "
  "All supported integration rules agree within their truncation error (Chebyshev-Gauss quadrature on grids that cover its nodes), whatever the spacing of the latitudinal grid, the order in which functions are listed does not matter, equatorially antisymmetric products integrate to zero, and the angular functions retrieved by name are the Hough functions and derivatives they name.",
  ["inputs", "configurations"], "all triads of Hough functions, descriptors, conjugations, divisions by sine, multiplication by cosine and integration rules",
  "Tests check a few spherical-harmonic integrals.",
  ["aesolver/aesolver/angular_integration"],
  [("integrand assembly and selection rule", "hough_integration.py"), ("function retrieval", "hough_function_handler.py")],
  ["returned integral values"])

p("C22", "Configuration files and arguments are interpreted as written",
  "Every value in a text or TOML inlist reaches the program with the value, type and nesting it was written with (integers, floats in all notations, booleans, quoted strings, lists, tuples, tables, missing values), comments and blank lines have no effect, user values replace the defaults of the same name only, and command-line arguments override defaults exactly when given. "
  "A file name is resolved to the absolute path of the existing file below the current directory, else below the directory of the run script, else an error is raised; every element of the inlist that a run script uses reaches the solver, analyser or plotter under its own name.",
  ["inputs", "configurations"], "all inlist contents, argument vectors, directory trees and working directories",
  "Tests parse one sample inlist; none of them runs the argument parsers of the run scripts or the path resolution from another directory.",
  ["util-tools/inlist_handler", "util-tools/generic_parser", "util-tools/path_resolver", "util-tools/log_formatter", "aesolver/aerunners", "aesolver/aesolver/read_load_info/read_info_dirs.py"],
  [("value conversion", "inlist_handler.py, toml_inlist_handler.py"), ("argument parser", "generic_parser.py"), ("path resolution", "resolve_paths.py"), ("inlist elements of the run scripts", "read_toml_args in aerunners/*.py"), ("information directories", "read_info_dirs.py")],
  ["dictionaries returned to the callers", "resolved paths", "level of the root logger"])

p("C23", "Analysis masks select exactly the triads their criteria describe",
  "For every result set, the masks are true for exactly those triads that fulfil their criterion, row by row: stable when all three stability checks passed; valid when the linear detuning is at most a tenth of the lowest mode frequency; isolated when the triad has the lowest threshold among the triads of its parent and of each of its daughters and the parent's second-lowest threshold exceeds its saturation amplitude; above the luminosity threshold when no mode of the triad takes part in a triad with a lower or missing threshold. Combined masks are the conjunction of their parts, and the classes drawn in the overview exclude one another. "
  "Adding an unrelated triad or reordering the triads never changes the verdict on the others.",
  ["inputs", "histories"], "all result tables, including parents with a single triad and missing values",
  "There are no tests of the analysis code.",
  ["aesolver/ae_analyzer/library_functions/masking.py", "aesolver/aeplotter/library_functions/masking.py"],
  [("mask construction", "masking.py")],
  ["boolean masks"])

p("C24", "Complex-number, unit and name conversions round-trip",
  "Converting structured real/imaginary data to complex numbers and back, mapping eigenvalue-file names from quantum numbers, converting frequencies between unit systems and cutting oscillation data to a wanted range preserve every value: nothing is dropped, reordered or changed except by the documented factor, and inverse conversions restore the input.",
  ["inputs"], "all arrays, quantum numbers (including negative and zero azimuthal orders), units and cut ranges",
  "Tests cover one example per conversion; negative orders are absent.",
  ["num-tools/carr_conv/carr_conv.py", "gyre-tools/lam_tar_gyre", "gyre-tools/gyre_cutter", "gyre-tools/gyre_unit_converter"],
  [("conversions", "the named modules")],
  ["returned arrays, names and files"])

p("C25", "The assertion helpers used by the test suites pass exactly when values agree",
  "For numbers, strings, None, functions (compared by their code), numeric arrays (NumPy broadcasts their shapes), and lists and dictionaries of these, the comparison helpers accept a pair of values exactly when every element agrees in type and, within the default tolerances, in value (NaN agrees with nothing), and reject every pair that differs in value, type, number of elements or keys (keys of the second dictionary only, when equal lengths are not enforced). "
  "The assertion helper raises an error exactly when a requirement on type or length (zero included) of a value or one of its elements is not met, and the enumerations of test data return the values they were written with.",
  ["inputs"], "all scalars, arrays, dictionaries and tolerances",
  "The helpers are what the tests rely on; they are not tested themselves.",
  ["pytest-util-tools/pytest_util_functions", "pytest-util-tools/pytest_util_classes"],
  [("comparison helpers", "comparison.py, assertion_checker.py")],
  ["verdict (assertion raised or not)"])

p("C26", "A run of the solver stores, for every requested triad, its own physics",
  "Running the solve script on an inlist produces one result file in the requested place with exactly one row for every combination of the requested radial orders, and every row belongs to the modes of exactly those degrees, azimuthal and radial orders, of the selected star: inertial and corotating frequencies, spin parameters, rotation frequency, driving rates, quality factors, detuning, kind of resonance and equilibrated flag, coupling terms, normalisation, stationary amplitudes, threshold and surface flux variations follow from the files of these modes (adiabatic and nonadiabatic, whatever units and frames they use) and of the stellar or polytropic model. "
  "Files of other modes, kinds or stars in the directories never matter, triads that cannot couple or equilibrate get zeros or missing values and never the numbers of another triad, and a second run, or the public solver class for scripts (QuadRotAESolver), gives the same numbers.",
  ["inputs", "configurations", "histories"], "all stars, polytropes, modes, units, frames, ranges of radial orders and combinations of inlist options of the grid computation",
  "No test runs the solver as a whole: its stages are only tested separately, on stored examples.",
  ["run_scripts/solve_quadratic.py", "aesolver/aerunners/solve_quadratic.py", "aesolver/aesolver/solver/quadratic_grid.py", "aesolver/aesolver/solver/solver_base_classes/quadratic_solver.py", "aesolver/aesolver/solver/quadratic_solver.py"],
  [("whole run", "perform_complete_solve_run"), ("one triad", "compute_coupling_one_triad"), ("grid", "QuadraticAEGridSolver, QuadRotAESolver")],
  ["HDF5 result file"])

p("C27", "Analysis quantities follow from the stored results",
  "Whatever result files are named in the inlist, the analysis and plotting tools load exactly their values, model by model and file by file in the given order, and every derived quantity of a triad equals its definition in terms of that triad's stored values: unit conversions, linear detunings, rotation frequencies and spin parameters (for any azimuthal orders), threshold luminosities, amplitude ratios, driving and damping rates, quality factors, detuning ratios (q, q1, q3, theta), nonlinear frequency shifts and nonlinear frequencies. "
  "The nonlinear frequency of the parent is the sum of those of its daughters. The numbers of triads that are printed, the points and histogram bars that are drawn, and the frequencies folded at the Nyquist frequency are those of the triads of the respective class.",
  ["inputs", "configurations"], "all result tables (any azimuthal orders, missing values, coupled classes) and all ways of naming one or several files per model",
  "There are no tests of the analysis and plotting code.",
  ["aesolver/ae_analyzer/quadratic_stationary_analyzer.py", "aesolver/aeplotter/quadratic_plotter.py", "aesolver/aeplotter/overview_plot", "aesolver/aeplotter/resonance_sharpness", "aesolver/aesolver/read_load_info/load_name_plots.py"],
  [("file name generation", "LoadFileName in load_name_plots.py"), ("loading and concatenation", "_load_analysis_data, _load_sharpness_overview_data"), ("derived quantities", "the _compute_* methods of both classes"), ("drawing", "overview_plot/plot.py, resonance_sharpness/histogram.py, plot.py")],
  ["per-model tables, printed text, matplotlib artists and saved figures"])

p("C28", "Profile runs show the integrated coupling coefficient and its valid part",
  "A profile run of the solve script (or of the public solver class) for one triad of one star draws, as functions of the fractional radius, the integral of the coupling coefficient up to that radius, its four contributions, and these curves adjusted for the validity of the traditional approximation: the adjusted curve is constant across every zone in which the squared buoyancy frequency does not exceed both (20 Omega)^2 and (10 omega)^2 for the fastest of the modes, and parallel to the original one in the valid zones, which are exactly the ones that are shaded. "
  "The printed coefficient is that of a grid run of the same triad, the printed contributions of the zones are the increments of the curve across them, and the printed adjusted amplitudes, fluxes and thresholds are those of the grid run divided by the ratio of the coefficients. The angular and radial kernels drawn on request are the products of mode functions and stellar profiles that their labels name, and every permutation of the modes is present once. Every figure is saved once under a name with the quantum numbers of the triad; modes that are not on the slow manifold are refused with a PhysicsError.",
  ["inputs", "configurations"], "all stars (with any number and position of invalid zones, including none and all), triads and combinations of inlist options of the profile computation",
  "No test runs the profile computation, draws a profile or has an invalid zone.",
  ["aesolver/aesolver/solver/quadratic_profile.py", "aesolver/aesolver/solver/profile_plot_classes", "aesolver/aesolver/solver/profile_helper_classes", "aesolver/aesolver/solver/profile_print_functions", "aesolver/aesolver/solver/profile_type_help"],
  [("profile runs", "QuadraticAEProfileSolver"), ("adjusted profiles and printed numbers", "profile_print_functions, coupling_coefficient_plots"), ("kernels", "kernel_plots, angular_kernels, radial_kernels"), ("figures", "profile_plot_classes, load_name_plots.py")],
  ["figures handed to savefig", "printed numbers"])

p("C29", "Comparison figures show the mode functions and profiles of the named files",
  "For every triad requested in the inlist and every combination of radial orders, the figures of the comparison class for adiabatic and nonadiabatic modes draw, for each mode, the real and imaginary parts of the radial and horizontal displacement read from exactly the adiabatic and the nonadiabatic file of that mode (whatever other files are in the directories), each under its own label and against the fractional radius or the enclosed mass fraction as requested, and the title names the quantum numbers, the frequencies of the two files, their unit and frame. "
  "The profile figures draw the named columns of the stellar profile (or the difference of the two sides of the equation of hydrostatic equilibrium) against the same coordinate.",
  ["inputs", "configurations"], "all stars, triads, radial orders, units and frames of the input files and ways of asking for the figures",
  "There are no tests of the comparison class and its figures.",
  ["aesolver/aesolver/ad_nad_comparer", "aesolver/aesolver/read_load_info/read_info_dirs.py", "aesolver/aesolver/model_handling/model_loader"],
  [("reading the inlist and files", "AdNadComparer.load_modes, read_info_dirs.py"), ("drawing", "ad_nad_comparer plotting classes")],
  ["matplotlib artists of the figures"])

p("C30", "Faults end in an error or leave the numbers and other files as they are",
  "If an oscillation-mode or polytrope file is missing, truncated, no HDF5 file or lacks a dataset or attribute, if the stellar profile is missing, empty or lacks a column, if reading an input file fails, or if any call in the course of a run fails (an exception, lack of memory, an interrupt), a grid run either ends with an error and leaves no result file (and an already present result of an earlier run with the same name byte for byte as it was, unless the failure comes while the results are being saved), or gives exactly the numbers of the undisturbed run; where an input value is nan, each result is nan or unchanged (zero in a triad that the checks then reject), and no check of the state turns positive. "
  "A run that is killed or out of disk space never reports success, what can be read from the file it leaves behind are numbers of the complete run, and a repetition of any failed run on intact input, in the same or a new process, gives exactly the results of the undisturbed run; so do runs that take place at the same time. "
  "Runs change no file other than their result, and a triad has the same numbers whichever other radial orders its run covers.",
  ["crash_points", "fault_sequences", "inputs", "schedules"], "all faults of single input files, all calls that can fail or at which the process can end, all limits of the file size, and runs of stars and polytropes beside each other",
  "No test runs the solver with incomplete input or interrupts it.",
  ["aesolver/aerunners/solve_quadratic.py", "aesolver/aesolver/solver", "aesolver/aesolver/model_handling", "aesolver/aesolver/data_handling/data_specific", "aesolver/aesolver/read_load_info"],
  [("reading", "model loaders and readers of aesolver, gyre and MESA files"), ("saving", "the HDF5 saver, called once per run with all results")],
  ["exceptions and exit states of runs", "the result file", "digests of all other files"])

p("C31", "Analysis and plotting runs report the triads of the result files",
  "A complete analysis run (the analysis script with an inlist) prints exactly the sections switched on in the inlist, in a fixed order and, in each, the models in the order of the inlist, however many there are; every number printed (counts of triads per condition and combination of conditions, and orders, detunings, rates, frequencies, spin parameters, validity estimators, frequency shifts, phases and flux ratios of the selected triads) is that of the triads in the result files the inlist names. "
  "A complete plotting run saves exactly the figures switched on, under the names, directories and in all formats of the inlist, and shows them exactly if the inlist asks for it. "
  "Neither changes the result files; a result file that is missing, truncated, no HDF5 file, or lacks what a run needs ends it in an error.",
  ["inputs", "configurations"], "all contents of result files, all ways of grouping files into models, all combinations of switches, names and formats of the inlist",
  "No test runs the analysis or plotting scripts.",
  ["aesolver/aerunners/analyze_quadratic.py", "aesolver/aerunners/plot_quadratic.py", "aesolver/ae_analyzer", "aesolver/aeplotter", "run_scripts"],
  [("runs", "perform_complete_analysis_run, perform_complete_plotting_run"), ("printed sections", "QuadraticAEStationaryAnalyzer.generate_*"), ("figures", "QuadraticAEPlotter.generate_plots")],
  ["standard output", "files below the plot directory", "calls of matplotlib's show"])

p("C32", "The figure scripts mark the stable fixed points and fit the nearest ratios",
  "For all ratios of damping and driving rates and all detunings, the stability map of the paper's figure script marks exactly the fixed points of the amplitude equations of three modes that are linearly stable, the other map exactly those that fulfil the criterion published by Dziembowski in 1982 (as the solver's function of that criterion does), and the ratio of the highest coefficients of both criteria is that of their polynomials. "
  "Maps are computed on the whole requested grid, and detunings, labels and file names of the panels belong together. "
  "The threshold script fits the line through the three points nearest to a flux ratio of one on either side and prints its value at one, its coefficients and their standard errors.",
  ["inputs"], "all positive ratios of rates, all detunings and grids, all sets of ratios",
  "The scripts are not tested.",
  ["VB_et_al_2024_additional_plot_compute_scripts", "aesolver/aesolver/stability_checker/three_mode/stab_checker_quadratic_three_sum.py"],
  [("maps", "dziembowski_subplot.py"), ("threshold", "compute_threshold_theta.py")],
  ["return values", "saved figures", "printed numbers"])

p("C33", "Repeated computations release what they acquire and leave settings alone",
  "However often kernels, computations (Hough functions, coupling coefficients and profiles, histograms, transforms, inlists), and complete solver, analysis and plotting runs are repeated in one process, each time on other numbers and whether they return or end in an error, what they acquire is released: the native heap, live arrays and objects of the package, open files and HDF5 objects, log handlers, warning filters, threads, child processes and temporary files do not grow with the number of repetitions (figures that the user closes included, figures left open not). "
  "No kernel keeps references to its arguments. "
  "None of these operations changes the settings of the process on which other computations depend: floating-point error handling, warning filters, working directory, environment, module search path, random generators, print options, signal handlers, log levels, standard streams.",
  ["histories", "inputs", "fault_sequences"], "all sequences of operations in one process, with and without errors, for every input",
  "Tests run each function a few times and look at results only.",
  ["cpp-numintegrator", "cpp-ld-funcs", "cpp-disc-integrator", "fornberg-num-deriv", "histogram_maker", "hough-func-tools", "aesolver/aesolver", "aesolver/aerunners", "aesolver/ae_analyzer", "aesolver/aeplotter", "util-tools"],
  [("native objects", "Cython wrappers: new and del around each computation"), ("file handles", "context managers of the readers and of the HDF5 saver")],
  ["the native heap (mallinfo2) and Python heap", "counts of arrays, objects, files, HDF5 objects, threads", "process settings"])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as fh:
    for x in P:
        fh.write(json.dumps(x, ensure_ascii=False) + '\n')
print(len(P))
