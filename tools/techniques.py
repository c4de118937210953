# id -> (technique, level note).  exec'd by mkmanifest.py
MON = "runtime monitoring: the real library driven under AddressSanitizer+UBSan by "
TECH = {
 "C01": (MON + "generated direction pairs, with an online geometric oracle", "random and singular direction pairs; every parametrization with an inverse"),
 "C02": (MON + "generated direction pairs, compared with independently written definitions of every parametrization", "all named parametrizations and dimensions, random value conversions with poisoned outputs"),
 "C03": (MON + "random data sets; save/load event logs compared bit for bit", "random shapes, special values, every truncation class"),
 "C04": (MON + "random data sets; save/load event logs compared", "random shapes and finite values"),
 "C05": (MON + "generated text files and option sets, with an independent model of filters and intervals", "random files, option combinations and layouts"),
 "C06": (MON + "mutated and adversarial files for every loader, with time, memory and result monitors", "structure-aware mutation; bounded by the number of files"),
 "C07": (MON + "random read/write histories, compared with a container model", "histories of up to 25 operations"),
 "C08": (MON + "random pairs of data sets differing in one place, with the exact expected verdict", "random shapes and perturbations"),
 "C09": (MON + "random MERL tables, with an independent model of the format", "random cells, indices and directions"),
 "C10": (MON + "random UTIA tables, with an independent model of the table", "random configurations, EXR round trips"),
 "C11": (MON + "random grids, point sets and slice images, with independent interpolation oracles", "domain corners, edges, nodes and random points"),
 "C12": (MON + "generated ASTM files, compared with the rows written", "random column sets and layouts"),
 "C13": (MON + "random parameters and directions, compared with independently written closed forms", "every analytic plugin; singular configurations avoided where the model is undefined"),
 "C14": (MON + "random parameters and directions; reported derivatives compared with Richardson-extrapolated differences of the observed values", "every plugin with derivatives, sums and products"),
 "C15": (MON + "random functions saved, loaded and evaluated at random directions", "every analytic plugin, compositions, rational bases"),
 "C16": (MON + "random expressions, compared with an algebraic model over the separately observed parts", "random compositions of up to five parts"),
 "C17": ("runtime monitoring: exported C++ compiled and run, exported shader and Matlab source type-checked and executed by small interpreters, all compared with the values observed in the running library", "functions and targets that the plugins support"),
 "C18": (MON + "random coefficients, degrees and points, compared with independently computed polynomials", "dimensions 1 to 4, every basis"),
 "C19": (MON + "random interval data; the fitted function observed at every sample", "random sizes, schedulings and thread counts"),
 "C20": (MON + "random quadratic programs, with optimality conditions and an independent active-set enumeration as oracle", "up to 8 variables and 40 constraints"),
 "C21": (MON + "random data; coefficients checked against the first-order optimality of the objective", "random sizes and dimensions"),
 "C22": (MON + "random models, data, starts and bounds; residuals observed before and after", "every nonlinear fitter, representative plugins"),
 "C23": ("ThreadSanitizer with an instrumented OpenMP runtime that injects random scheduling, plus differential comparison over thread counts and schedules", "the parallel fitter and the parallel data conversion"),
 "C24": (MON + "random data and functions, compared with independently computed norms", "random data sets and masks"),
 "C25": (MON + "random command lines and headers, compared with an independent parser model", "random keys, values, spacings"),
 "C26": ("runtime monitoring: every tool run under AddressSanitizer+UBSan with enumerated fault conditions; exit status, messages and outputs observed", "eight tools, missing/invalid/unwritable inputs and outputs"),
 "C27": ("runtime monitoring: the conversion tool run under sanitizers on generated data; output files compared with an independent model", "random data, parametrizations and options"),
 "C28": ("runtime monitoring: the sampling tools run under sanitizers; every output row compared with the library's evaluation", "random functions and data"),
 "C29": ("runtime monitoring: the moment tool run under sanitizers; output compared with an independent integration of the same samples", "random data sets and sampling options"),
 "C30": (MON + "random search paths and plugin load orders; differential comparison of observed values against a lone process", "all pairs of plugins"),
 "C31": ("runtime monitoring: the Python module run under AddressSanitizer with random call sequences, compared with the C++ driver on the same inputs", "random scripts of bindings calls"),
 "C32": ("runtime monitoring: differential executions under varying heap and stack fill patterns, results compared bit for bit", "all driver command families and the tools"),
 "C33": ("runtime monitoring: the fitting tool run under sanitizers; its output file checked against the library's evaluation", "random data, fitters and functions"),
 "C34": (MON + "random expressions and starting points; the parameters of every part observed after the first guess and compared with those asked for", "vectors, files, partial files and options of parts, for sums, products and single functions"),
}
NA = {}
