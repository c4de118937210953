#!/usr/bin/python3
"""Source of properties.jsonl (python3 tools/mkprops.py > properties.jsonl)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=False):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook or None)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a))
C = "sources/core/"
PL = "sources/plugins/"

p("C01", "Direction parametrizations round-trip through cartesian",
  "Converting a view/light direction pair of the upper hemisphere to a parametrization that retains the full geometry (half/difference angles, spherical angles) and back gives the same two directions; for the isotropic parametrizations it gives them up to a common rotation about the normal. Directions produced by any supported inverse conversion from in-domain coordinates are unit vectors, and coordinates converted to directions and back are unchanged. Conversion never yields NaN for valid directions, including grazing, normal, retro and mirror configurations.",
  ["inputs"], "all pairs of unit directions in the closed upper hemisphere, all supported parametrizations with an inverse, all in-domain coordinates",
  "Existing params tests check a handful of fixed angles for a few parametrizations; degenerate azimuths, poles, retro and grazing pairs and most of the table are never sampled.",
  [C+"params.cpp", C+"params.h"], [("from_cartesian / to_cartesian", C+"params.cpp"), ("half_to_cartesian, rotate_normal, rotate_binormal, convert", C+"params.h")],
  ["alta::params::convert"])
p("C02", "Parametrization coordinates mean what is documented",
  "For every supported parametrization the coordinates computed from a direction pair are the documented geometric quantities (half vector, difference vector, elevation and azimuth angles, cosines, back vector, projected coordinates), conversion between two parametrizations equals conversion through cartesian directions, and exactly the documented number of coordinates is written. The name table is a bijection on the named parametrizations and dimensions match. Converting a value vector between channel counts copies equal counts, replicates one channel and averages to one channel.",
  ["inputs"], "all direction pairs, all ordered pairs of parametrizations, all value vectors and channel counts",
  "Tests convert a few points in a few parametrizations and compare round trips, which a consistent error in both directions survives.",
  [C+"params.cpp", C+"params.h"], [("from_cartesian", C+"params.cpp"), ("input_map names and dimensions", C+"params.cpp"), ("value conversion", C+"params.h")],
  ["alta::params::convert", "alta::params::get_name", "alta::params::parse_input", "alta::params::dimension"])
p("C03", "Binary data files reproduce the data exactly",
  "Saving any data set (whose dimensions are those of its parametrizations) in the binary format and loading it back yields the same number of samples, dimensions, parametrizations, confidence-interval kind and bit-identical values, including extreme and special values. A file whose payload is cut short is reported as an error rather than loaded.",
  ["inputs", "crash_points"], "all data contents, dimensions and confidence-interval kinds, all truncation points",
  "One test saves one file; neither arbitrary bit patterns (the first byte of the payload is ambiguous with the header syntax), interval kinds nor truncation are exercised.",
  [C+"data_storage.cpp", C+"vertical_segment.h"], [("save_data_as_binary / load_data_from_binary", C+"data_storage.cpp"), ("header parsing", C+"args.h")],
  ["alta::save_data_as_binary", "alta::plugins_manager::load_data"])
p("C04", "Text data files reproduce the data",
  "Saving any data set of finite values (whose dimensions are those of its parametrizations) in the text format and loading it back yields the same number of samples in the same order, the same dimensions and parametrizations, and every abscissa and ordinate to 14 significant digits.",
  ["inputs"], "all finite data contents, dimensions 1..6 x 1..4, parametrizations",
  "The single existing test uses one small positive data set and default options.",
  [C+"data_storage.cpp"], [("save_data_as_text / load_data_from_text", C+"data_storage.cpp")], ["alta::data::save", "alta::plugins_manager::load_data"])
p("C05", "Text loading honours filters and confidence-interval options",
  "Loading a text data file keeps exactly the samples whose abscissa lies inside the requested min/max box and whose ordinate lies inside the requested ymin/ymax box, in file order. The interval attached to every kept sample is the one the options describe: absolute or relative half-width (or the larger of both), clamped at zero when positivity is requested, or the interval written in the file for symmetric and asymmetric interval columns of the first channel; when the correction by the cosines is asked for, values and intervals are divided by the product of the two cosines and configurations not above the surface are left out. Comment and blank lines and line-ending style do not change the result.",
  ["inputs", "configurations"], "all files and all combinations of dt, dt-relative, dt-max, data-positive, data-correct-cosine, min, max, ymin, ymax and VS header kinds",
  "Existing tests load three small files with one dt setting.",
  [C+"data_storage.cpp"], [("load_data_from_text", C+"data_storage.cpp"), ("option parsing", C+"args.h")], ["alta::plugins_manager::load_data", "vertical_segment::get"])
p("C06", "Malformed input files are handled without memory errors or hangs",
  "Loading any byte sequence as a data, function or image file (text, binary, function description, MERL, UTIA, ASTM, slice image) terminates, and never reads or writes outside an allocated object, executes undefined behaviour or allocates an absurd amount of memory: it yields a usable object, an error result or an exception. A binary sample set or MERL table that is shorter than its header promises is never returned as a loaded object.",
  ["inputs", "fault_sequences"], "all byte sequences: truncations, header field mutations, size lies and garbage derived from valid files of each format",
  "Tests only ever load well-formed files.",
  [C+"data_storage.cpp", C+"args.h", C+"plugins_manager.cpp", PL+"data_io/merl.cpp", PL+"data_io/utia.cpp", PL+"data_io/astm.cpp", PL+"data_io/slice.cpp", PL+"data_io/EXR_IO.h"],
  [("loaders", C+"data_storage.cpp"), ("function file loader", C+"plugins_manager.cpp"), ("format plugins", PL+"data_io")], ["alta::plugins_manager::load_data", "alta::plugins_manager::load_function"])
p("C07", "Vertical segments bracket their values and containers keep what is set",
  "In a sample set, reading an element returns what was stored by construction or by the last write to that index and no write changes another element; the lower bound never exceeds the value, the value never exceeds the upper bound, for every interval kind with non-negative half-widths; and the domain box reported is the tight bounding box of the abscissas present at construction. Writing an element with a wrong number of entries is refused.",
  ["histories", "inputs"], "all sequences of set/get over all sizes, dimensions and interval kinds",
  "Tests read elements from three files; symmetric in-memory interval data and interleaved writes are never read back.",
  [C+"vertical_segment.cpp", C+"vertical_segment.h"], [("get / set / vs", C+"vertical_segment.cpp"), ("matrix_view", C+"vertical_segment.h")], ["vertical_segment::get", "vertical_segment::set", "data::min", "data::max"],
  state=[("_data", "row-major samples with interval columns", C+"vertical_segment.h")])
p("C08", "Data equality detects every difference",
  "Two data sets compare equal exactly when they have the same size, dimensions, parametrizations and values up to the tolerance (by default, numerical noise): comparison is reflexive and symmetric, and changing any one coordinate of any one sample, the size, or a parametrization makes it false.",
  ["inputs"], "all data sets and all single-site differences",
  "Equality is the oracle of existing tests but nothing tests that it can answer false.",
  [C+"data.cpp", C+"data.h"], [("data::equals", C+"data.cpp")], ["alta::data::equals"])
p("C09", "MERL tables address, evaluate, save and load consistently",
  "For a MERL table, the value at a configuration is the stored cell that contains its half/difference angles, scaled by the format's per-channel factors and clamped at zero; writing an element and reading it back returns the written value, every index maps to a distinct cell with coordinates inside that cell, and saving then loading reproduces the table bit for bit.",
  ["inputs", "histories"], "all table contents, all indices, all configurations",
  "No MERL file ships with the repository, so no test loads one.",
  [PL+"data_io/merl.cpp"], [("index computations, value, get, set, load, save", PL+"data_io/merl.cpp")], ["data_merl plugin: data::get/set/value/save"])
p("C10", "UTIA tables interpolate their samples and survive export",
  "For a UTIA table, evaluation at a stored configuration returns the stored sample, evaluation between stored elevations lies within the range of the table's samples around it and is continuous (beyond the last stored elevation the format extrapolates linearly), indexed reading and writing address the same entry, and saving the table in the image format and loading it back reproduces the values to single precision.",
  ["inputs", "histories"], "all table contents, grid nodes and off-grid configurations",
  "The plugin has no test.",
  [PL+"data_io/utia.cpp", PL+"data_io/EXR_IO.h"], [("value, get, set, save, load", PL+"data_io/utia.cpp")], ["data_utia plugin"])
p("C11", "Interpolating data reproduces its samples and stays within their range",
  "Evaluating an interpolated data set (regular grid, scattered nearest neighbours, piecewise-constant image slice) at one of its samples returns that sample's value; evaluating inside the domain returns a value between the smallest and largest of the samples involved; and evaluation never reads outside the stored samples anywhere on the closed domain. Grid interpolation is exactly multilinear in the cell.",
  ["inputs"], "all sample tables and all points of the closed domain, boundary and corner points included",
  "Only one end-to-end test evaluates an interpolant, at data points, comparing command exit status.",
  [PL+"data_interpolants/grid.cpp", PL+"data_interpolants/rbf.cpp", PL+"data_io/slice.cpp"], [("grid value", PL+"data_interpolants/grid.cpp"), ("rbf value", PL+"data_interpolants/rbf.cpp"), ("slice value/get/set", PL+"data_io/slice.cpp")], ["data::value"])
p("C12", "ASTM files load into the stated samples",
  "Loading an ASTM file yields one sample per data line, in order, with the listed spherical angles as abscissas and the listed channel values as ordinates, with dimensions and parametrization matching the columns declared by the file.",
  ["inputs"], "all well-formed ASTM files: header orders, channel counts, line counts",
  "The plugin has no test.",
  [PL+"data_io/astm.cpp"], [("load", PL+"data_io/astm.cpp")], ["data_astm plugin"])
p("C13", "Analytic models evaluate to their published formulas",
  "For every analytic reflectance, Fresnel and shadowing plugin, evaluation at any valid direction pair with any admissible parameters equals the model's published closed form channel by channel, is zero (or the documented limit) below the horizon where the model says so, and is reproducible. Setting a parameter vector and reading it back is the identity, and the current bounds vectors have the parameter vector's size with lower not above upper.",
  ["inputs"], "all plugins, channel counts, parameter vectors within bounds and direction pairs including below-horizon and degenerate ones",
  "Two python tests sample blinn and Fresnel lobes at a few points and check linearity only.",
  [PL+"nonlinear_function_blinn/function.cpp", PL+"nonlinear_function_ward/function.cpp", PL+"nonlinear_function_beckmann/function.cpp", PL+"nonlinear_function_lafortune/function.cpp", PL+"nonlinear_function_sgd/function.cpp", PL+"nonlinear_fresnel_schlick/function.cpp", PL+"nonlinear_shadowing_smith/function.cpp"],
  [("value()", PL+"nonlinear_*/function.cpp"), ("setParameters/parameters/getParametersMin/Max", PL+"nonlinear_*/function.cpp")], ["nonlinear_function::value", "nonlinear_function::parameters"])
p("C14", "Parameter derivatives match the function",
  "For every analytic plugin that provides derivatives, and for sums and products of them, the reported derivative of every output channel with respect to every free parameter equals the limit of finite differences of the function's own values at every point where the function is differentiable, laid out channel by channel (entry channel * number of parameters + parameter).",
  ["inputs"], "all plugins and combinations, parameter vectors and direction pairs away from kinks",
  "No test looks at derivatives; a wrong entry only slows or derails optimisation.",
  [C+"function.cpp", PL+"nonlinear_function_ward/function.cpp", PL+"nonlinear_function_beckmann/function.cpp", PL+"nonlinear_function_lafortune/function.cpp"], [("parametersJacobian", PL+"nonlinear_*/function.cpp"), ("compound and product Jacobians", C+"function.cpp")], ["nonlinear_function::parametersJacobian"])
p("C15", "A saved function loads back as the same function",
  "Saving any function (analytic model, with or without Fresnel/shadowing factors, sums, rational functions on every basis) in the native format and loading the file yields a function of the same kind, dimensions and input parametrization whose values agree with the original everywhere up to the printed precision, and whose parameters agree component by component.",
  ["inputs", "programs"], "all function expressions buildable from the plugins, all parameter values and domains",
  "Tests load hand-written function files but do not compare a saved function with its reloaded self except for one Kirby fit.",
  [C+"function.cpp", C+"plugins_manager.cpp", C+"rational_function.cpp"], [("save / save_header / save_call / load", C+"function.cpp"), ("load_function", C+"plugins_manager.cpp"), ("plugin load/save_call", PL+"nonlinear_*/function.cpp")], ["function::save", "plugins_manager::load_function"])
p("C16", "Sums and products of functions behave as algebra",
  "A sum of functions evaluates to the sum of its terms and a product to the product of its factors, each factor evaluated at the same directions in its own parametrization. Their parameter, bound and derivative vectors are the concatenation over the free parts in order, setting parameters routes each slice to its part and leaves fixed parts unchanged, and the number of parameters reported equals the length of the vectors.",
  ["programs", "histories"], "all combinations of plugins with fixed and free parts, all parameter vectors and points",
  "One python test adds two lobes at a few points.",
  [C+"function.cpp", C+"plugins_manager.cpp"], [("compound_function, product_function", C+"function.cpp"), ("expression parsing", C+"plugins_manager.cpp")], ["plugins_manager::get_function", "function::value"])
p("C17", "Exported code computes the same function",
  "Exporting a function as C++, Matlab or shader source, for every plugin and target whose export reports success, gives source that is accepted by the target language and, when evaluated on the same inputs, gives the same values as the function itself up to the printed precision.",
  ["programs", "inputs"], "all exportable plugins and sums/products of them, all targets, parameter values and directions",
  "No test compiles or runs an export.",
  [C+"function.cpp", C+"rational_function.cpp"], [("save_body / save_call", PL+"nonlinear_*/function.cpp"), ("rational export", C+"rational_function.cpp")], ["function::save with --export"])
p("C18", "Rational functions evaluate the documented ratio of polynomials",
  "A rational function's value is, per channel, the ratio of the two polynomials given by its stored coefficients over the selected basis (monomial, Legendre, Chebyshev, cosine-weighted), the basis enumeration lists every multi-degree exactly once in order of total degree starting with the constant, and updating coefficients changes the function by at most the common normalising factor.",
  ["inputs"], "all dimensions 1..4, polynomial sizes, coefficients, domains and points",
  "Tests evaluate fitted 1D functions at the fitted points and one 3D polynomial.",
  [C+"rational_function.cpp", PL+"rational_function_legendre/rational_function.cpp", PL+"rational_function_chebychev/rational_function.cpp", PL+"rational_function_cosine/rational_function.cpp"],
  [("index2degree, p, q, value, update", C+"rational_function.cpp"), ("basis evaluation", PL+"rational_function_*")], ["rational_function::value", "rational_function_1d::index2degree"])
p("C19", "A successful interval fit passes through every interval",
  "When an interval-based rational fitter reports success, the fitted function evaluated at every sample of the data lies inside that sample's interval for every channel up to solver tolerance, and its denominator neither vanishes nor changes sign between samples, whatever the scheduling of constraints, the size range searched, and the number of worker threads. The sizes used stay within the requested range, and data for which a function of the requested size exists exactly are fitted successfully.",
  ["inputs", "configurations", "schedules"], "all interval data sets, size ranges, scheduling modes, thread counts",
  "Tests compare a few fits on one data set with reference files.",
  [PL+"rational_fitters/quadprog.cpp", PL+"rational_fitters/quadprog_parallel.cpp", PL+"rational_fitters/quadratic_program.h"], [("constraint construction and test", PL+"rational_fitters/quadratic_program.h"), ("size search", PL+"rational_fitters/quadprog.cpp")], ["fitter::fit_data"])
p("C20", "The quadratic-program solver returns the constrained optimum",
  "For every strictly convex quadratic program with a feasible point, the solver returns a feasible point satisfying the optimality conditions and its objective value, identically for every constraint scheduling strategy and initial active set, together with the constraints that are active there; for an infeasible program it reports infinity.",
  ["inputs", "configurations"], "all dimensions, equality/inequality mixes, redundant and degenerate constraints, scheduling modes",
  "The solver is only exercised through Kirby and smooth-step fits.",
  ["external/quadprog++/QuadProg++.cc", "external/quadprog++/QuadProg++.hh"], [("solve_quadprog, solve_quadprog_with_guess", "external/quadprog++/QuadProg++.cc")], ["QuadProgPP::solve_quadprog"])
p("C21", "Least-squares rational fits minimise their objective",
  "The linear rational fitters return the coefficients that minimise their stated objective over the requested polynomial sizes: perturbing the returned coefficients never lowers it, data generated by a rational function of the requested size are recovered, and every channel is fitted to its own data.",
  ["inputs"], "all data sets, polynomial sizes, channel counts and bases",
  "Tests check only that the fitters run.",
  [PL+"rational_fitters/eigen.cpp", PL+"rational_fitters/leastsquare.cpp"], [("fit_data", PL+"rational_fitters/*.cpp")], ["fitter::fit_data"])
p("C22", "Nonlinear fits never make things worse and respect bounds",
  "A nonlinear fit that reports success returns finite parameters within the function's bounds whose residual on the data is not above the starting point's, leaves the data and every fixed part of the function unchanged, and recovers the generating parameters when the data come from the model and the start is close. With no free parameter the function is unchanged.",
  ["inputs", "configurations"], "all models, data sets, starting points, fixed/free splits and optimiser options",
  "Tests run single fits and check the exit status or one parameter.",
  [PL+"nonlinear_fitter_eigen/fitter.cpp", PL+"nonlinear_fitter_ceres/fitter.cpp", PL+"nonlinear_fitter_nlopt/fitter.cpp"], [("objective and Jacobian assembly", PL+"nonlinear_fitter_*/fitter.cpp")], ["fitter::fit_data"])
p("C23", "Parallel execution is race-free and independent of scheduling",
  "The multi-threaded fitter and the multi-threaded data conversion have no data race, and produce the same result for every thread count, interleaving and iteration schedule.",
  ["schedules"], "all interleavings and thread counts of the parallel regions",
  "Tests run with two threads once and compare one result.",
  [PL+"rational_fitters/quadprog_parallel.cpp", "sources/softs/data2data/main.cpp"], [("parallel regions and critical sections", PL+"rational_fitters/quadprog_parallel.cpp"), ("parallel conversion", "sources/softs/data2data/main.cpp")], ["fitter::fit_data", "data2data"])
p("C24", "Error metrics equal their mathematical definition",
  "The error metrics between a data set evaluated as interpolant or function and a reference are, per channel, the stated norms (L1, L2, L3, Linf, mean square, root mean square) of the differences at the reference abscissas that have at least one direction above the surface, restricted to the entries selected by the mask; L2 and Linf distances of a function to data follow the same definitions. They are zero exactly for identical data.",
  ["inputs"], "all data pairs, masks, dimensions",
  "One test reads the metric file names; none recomputes a number.",
  [C+"metrics.cpp", C+"function.cpp", "sources/softs/data2stats/data2stats.cpp"], [("errors::compute", C+"metrics.cpp"), ("L2_distance, Linf_distance", C+"function.cpp")], ["errors::compute", "function::L2_distance", "data2stats"])
p("C25", "Command lines and file headers parse to the stated options",
  "Parsing a command line or header yields exactly the stated keys with their values: flags are defined and empty, bracketed lists keep all their elements however they are spaced, typed accessors return the number, vector or pair written or the default when absent, the reconstructed command line parses to the same options (as long as no value outside brackets contains blanks, which the format cannot express), and header parsing stops at the end marker or first non-header line without consuming what follows.",
  ["inputs"], "all token sequences of options, scalars, lists and nested lists; all header layouts",
  "Tests look up a few keys.",
  [C+"args.h"], [("constructor, get_vec, get_pair, get_cmd, create_arguments, parse_header", C+"args.h")], ["alta::arguments"])
p("C26", "Tools report failure when they cannot do their job",
  "Each command-line tool exits with a nonzero status and a message when a required argument is missing, an input file is missing or unreadable or does not describe what is asked for, a named plugin does not exist, or the output cannot be written; it exits zero only when the requested output exists and is complete. No such condition crashes the tool by a memory error.",
  ["inputs", "fault_sequences"], "all tools, all missing/bad input and output conditions",
  "Tests run the tools on good inputs and --help.",
  ["sources/softs/brdf2brdf/main.cpp", "sources/softs/brdf2data/main.cpp", "sources/softs/brdf2gnuplot/main.cpp", "sources/softs/data2brdf/main.cpp", "sources/softs/data2data/main.cpp", "sources/softs/data2stats/data2stats.cpp", "sources/softs/data2moments/main.cpp", "sources/softs/fit2stat/fit2stat.cpp"],
  [("main() of each tool", "sources/softs")], ["process exit status and output files"])
p("C27", "Data conversion preserves samples and changes only coordinates",
  "The data conversion tool writes one sample per kept input sample with the abscissa re-expressed in the requested parametrization and the same ordinate, or, for gridded targets, the interpolated source value at each target configuration; samples whose directions lie below the surface are dropped unless all values are asked for. Output format options change only the encoding.",
  ["inputs", "configurations"], "all sample sets, parametrization pairs, output formats and target data types",
  "Tests convert two files and check the exit status.",
  ["sources/softs/data2data/main.cpp"], [("conversion loop, scatter and interpolation paths", "sources/softs/data2data/main.cpp")], ["data2data output file"])
p("C28", "Sampling, plotting and conversion tools output the function they load",
  "The tools that sample a fitted function (to data, to plot files, to statistics, to another description) output exactly the values that the function has at the configurations they state: each output row equals the library's evaluation at the row's abscissa, differences and errors are relative to the given data, configurations without a half vector hold zero, and the converted description evaluates like the original.",
  ["inputs", "configurations"], "all functions, data sets and tool options",
  "Tests check exit codes or one output against a stored file.",
  ["sources/softs/brdf2data/main.cpp", "sources/softs/brdf2gnuplot/main.cpp", "sources/softs/brdf2brdf/main.cpp", "sources/softs/fit2stat/fit2stat.cpp"], [("sampling loops", "sources/softs")], ["tool output files"])
p("C29", "Moments equal the moments of the data",
  "The moment tool reports, for each channel, the integral of the data above its smallest value over the regular sampling of the domain it was asked for, and the raw moments up to order three along the two chosen dimensions, normalised by that integral. A second computation from the same data gives the same numbers, and scaling the data leaves the normalised moments unchanged.",
  ["inputs"], "all data sets and sampling sizes",
  "The tool is only run with --help.",
  ["sources/softs/data2moments/main.cpp"], [("moment accumulation", "sources/softs/data2moments/main.cpp")], ["data2moments output"])
p("C30", "Plugins are found by search path and never influence one another",
  "A plugin name resolves to the first directory of the search path that provides it, empty entries meaning the system directory, and an unknown name or a library without the requested entry point gives a clean failure. The values, derivatives and files produced by a plugin object do not depend on which other plugins were loaded before it or coexist with it in the process.",
  ["configurations", "histories"], "all search paths, all load orders of all plugins",
  "Tests load one plugin per process.",
  [C+"plugins_manager.cpp", PL+"nonlinear_function_retrobeckmann/function.cpp", PL+"rational_function_cosine/rational_function.h"], [("open_library, plugin_search_path", C+"plugins_manager.cpp"), ("class definitions in plugins", PL)], ["plugins_manager::get_function/get_data/get_fitter"])
p("C31", "Python bindings behave as the C++ library",
  "Every value obtained through the Python interface (loading, evaluation, parameters, sums and products, fitting, statistics, data access and conversion, saving) equals what the C++ interface gives for the same inputs, indices outside a container raise an exception instead of touching memory, and no sequence of calls or object lifetimes corrupts memory.",
  ["histories", "inputs"], "all call sequences and object lifetimes over the exposed interface",
  "A few python tests evaluate functions; lifetimes, indexing and most wrappers are untested.",
  ["sources/python/alta.cpp", "sources/python/wrapper_vec.h", "sources/python/wrapper_data.h", "sources/python/wrapper_args.h"], [("bindings", "sources/python/alta.cpp")], ["alta python module"])
p("C32", "Results never depend on uninitialised or stale memory",
  "Repeating any operation of the library or tools with the same inputs gives bit-identical results whatever the previous contents of memory: no output value, file or decision depends on uninitialised storage.",
  ["inputs", "histories"], "all library operations and tool runs, all prior memory contents",
  "A test run sees one memory state, usually zero pages.",
  [C, PL, "sources/softs"], [("all value-producing code", "sources")], ["results of every driver command and tool under differing memory fills"])
p("C33", "Fitting tool output describes the fit it made",
  "The fitting tool writes a function file whose header dimensions, parametrization and reported L2 and Linf errors are those of the function stored in the file against the input data, and that loads back to the fitted function; a failed fit is reported as failure and leaves no file claiming success.",
  ["inputs", "configurations"], "all fitters, functions, data sets and options of the fitting tool",
  "Tests compare file existence or one stored fit.",
  ["sources/softs/data2brdf/main.cpp", C+"function.cpp"], [("fit and save", "sources/softs/data2brdf/main.cpp"), ("save_header", C+"function.cpp")], ["data2brdf output file"])
p("C34", "A function starts from the first guess that was asked for",
  "Bootstrapping a function gives it the starting point its arguments ask for: a parameter vector given for the whole function sets its free parameters in order; a file sets every part the file describes, with or without the file's header, and lets the parts it does not describe start from their own guess; the options of a part (its own vector, file or settings) are kept when the whole function is given a vector or a file; the result does not depend on the state of the function before, and the data used for the guess are unchanged.",
  ["inputs", "configurations"], "all function expressions, vectors, files, partial files and part options",
  "Tests start from one default guess; the documented precedence of global and local starting points has many combinations.",
  [C+"function.cpp", C+"function.h"], [("function/compound/product bootstrap", C+"function.cpp"), ("documented policy", C+"function.h")], ["parameters of every part after function::bootstrap"])

for x in P:
    assert len(x["title"]) <= 80, x["id"]
    print(json.dumps(x))
