"""The text of every property; tools/gen.py writes properties.jsonl and MANIFEST.json from it and from specs.py."""
TEXT = {}
NA = {}
def P(id, title, statement, over, qtext, why, files, mech, level_note, state=None, observe=None):
    TEXT[id] = dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why,
                    anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe or [], 'hook_needed': None}, level_note=level_note)
    if state: TEXT[id]['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
REALS = 'Doubles are exact reals and libm functions their mathematical counterparts (rounding is outside); the LLVM IR of the current sources is executed symbolically and every obligation is discharged by exact normalisation or by z3/cvc5 within the stated bounds; candidates count only after native replay. '
BITS = 'Bit-precise for integers, memory and copied doubles within the stated sizes; LLVM IR of the current sources executed symbolically, obligations discharged by simplification or z3/cvc5; candidates count only after native replay. '

P('P01', 'Parametrization coordinates survive conversion to directions and back',
  'For every supported parametrization of a pair of light and view directions, converting valid coordinates to the two direction vectors and back yields the original coordinates. Azimuth-like coordinates are recovered modulo a full turn, for every configuration with both directions above the surface.',
  ['inputs'], 'all coordinates inside the domain of each of the 22 coordinate systems (continuous ranges), away from the poles where an azimuth is undefined',
  'The existing tests convert a few hundred sampled configurations between four of the parametrizations; the round trip must hold on continuous domains for all of them.',
  ['sources/core/params.cpp', 'sources/core/params.h'], [('to_cartesian / from_cartesian case per parametrization', 'sources/core/params.cpp'), ('half_to_cartesian, classical_to_cartesian, rotations', 'sources/core/params.h')],
  REALS + 'Bounds: 22 parametrizations, angles at least 0.001-0.01 rad from the poles, tangent-plane projections with radius below one.', observe=['public conversion functions'])
P('P02', 'Every parametrization describes two unit directions',
  'Whatever the parametrization and the valid coordinates, the light and view vectors produced from them have unit length.',
  ['inputs'], 'all coordinates in the domain of each of the 22 coordinate systems',
  'Unit length is only observed by tests through sampled conversions of a few parametrizations.',
  ['sources/core/params.cpp', 'sources/core/params.h'], [('to_cartesian', 'sources/core/params.cpp'), ('half_to_cartesian', 'sources/core/params.h')],
  REALS + 'Bounds: the coordinate domains of P01 (without the acute-angle restrictions).')
P('P03', 'Complete parametrizations preserve the light and view configuration',
  'Converting an arbitrary pair of directions to a four-dimensional parametrization and back recovers both directions. Isotropic three-dimensional parametrizations preserve the elevation of the two directions and the angle between them, wherever the pair is rotated around the normal.',
  ['inputs'], 'all pairs of unit directions above the surface, at any azimuth, away from the poles',
  'A conversion that drops or mirrors information for part of the hemisphere passes sampled tests.',
  ['sources/core/params.cpp', 'sources/core/params.h'], [('from_cartesian then to_cartesian', 'sources/core/params.cpp')],
  REALS + 'Bounds: nine parametrizations (three 4-D, six isotropic 3-D); elevation angles in [0.01, 1.56]; the retro-reflective parametrization is covered by P01 only.')
P('P04', 'Parametrization names, dimensions and conversions agree',
  'Every named parametrization parses back from its name, no other text does, and its declared dimension is exactly what conversions read and write. Converting between any two parametrizations goes through the two directions, is the identity on equal ones, and values of different output dimensions are copied, replicated or averaged regardless of the previous content of the destination.',
  ['inputs'], 'all texts with the length of a registered name, all pairs of parametrizations, all coordinates and output values of dimension up to five',
  'Names, sizes and the composition law range over all pairs of parametrizations and arbitrary text; tests use a handful of pairs.',
  ['sources/core/params.cpp', 'sources/core/params.h'], [('registration table, parse_input, parse_output, get_name, dimension', 'sources/core/params.cpp'), ('convert', 'sources/core/params.h')],
  REALS + 'Bounds: texts as long as a registered name; output dimensions up to 5; quick checks three destinations per source kind, thorough all 484 pairs.')
P('P05', 'Data saved as text load back as the same data',
  'Saving any data object as text and loading the file gives data with the same number of samples, dimensions, parametrizations, abscissas and ordinates, to the fifteen significant digits written. The bounds of the loaded domain enclose every sample.',
  ['inputs', 'histories'], 'all real values of the samples, every combination of dimensions and kinds of confidence intervals within the bounds',
  'Tests load a few shipped files; round trips over all shapes and values are not exercised.',
  ['sources/core/data_storage.cpp', 'sources/core/args.h', 'sources/core/vertical_segment.cpp'], [('save_data_as_text, load_data_from_text', 'sources/core/data_storage.cpp'), ('arguments::parse_header', 'sources/core/args.h')],
  REALS + 'Bounds: up to 4 input and 3 output dimensions, up to 2 samples, finite values up to 1e9; decimal formatting is a token rounded to its number of significant digits. Confidence intervals are not part of the text format.')
P('P06', 'Data saved as binary load back bit for bit',
  'Saving data in the binary format and loading them preserves every sample and its confidence interval bit for bit, undefined and infinite values included, as well as dimensions, parametrizations and kind of confidence interval. A file whose payload is cut short, at any byte, is refused rather than loaded with undefined values.',
  ['inputs', 'histories', 'crash points'], 'all 64-bit patterns of all values, every length of truncated payload, within the bounds on shapes',
  'Tests use a couple of shipped binary files; payload bytes that look like text and truncation at every byte are out of reach of samples.',
  ['sources/core/data_storage.cpp', 'sources/core/args.h', 'sources/core/vertical_segment.h'], [('save_data_as_binary, load_data_from_binary', 'sources/core/data_storage.cpp'), ('arguments::parse_header', 'sources/core/args.h')],
  BITS + 'Bounds: up to 3 input and 3 output dimensions, up to 2 samples, three kinds of confidence interval; truncation at each of 80 byte positions.')
P('P07', 'Text loading keeps exactly the requested samples and their intervals',
  'Loading a text file keeps exactly the samples inside the requested bounds (--min, --max, --ymin, --ymax), in order and unmodified, whatever the comments and blank lines. The confidence interval of each sample follows the #VS columns or --dt, in its absolute, relative (--dt-relative) or maximum (--dt-max) form, and --data-positive clamps negative values to zero. --data-correct-cosine divides values and intervals by the product of the cosines of the light and view directions, and drops the samples below the surface.',
  ['inputs', 'configurations'], 'all values of samples, bounds and interval widths; all combinations of the options within the bounds',
  'The option combinations and the samples lying exactly on a bound are not covered by the few shipped files.',
  ['sources/core/data_storage.cpp', 'sources/core/args.h'], [('load_data_from_text, read_data_rows', 'sources/core/data_storage.cpp'), ('arguments::get_vec, is_defined, get_float', 'sources/core/args.h')],
  REALS + 'Bounds: 1-2 inputs, 1-2 outputs, 1-2 samples; #VS 0, 1 or 2 interval columns with one output channel; cosine correction for three parametrizations.')
P('P08', 'Sample containers return what was stored',
  'A container of samples with confidence intervals returns, for each index, the abscissa, ordinate and interval that were stored or set last, leaves the other samples untouched, agrees with its matrix view, and reports the tight bounds of the abscissas it was built from.',
  ['inputs', 'histories'], 'all values of all samples, all rows, partial and complete updates, the three kinds of confidence intervals',
  'Column arithmetic errors only show for some combination of dimensions, interval kind and row.',
  ['sources/core/vertical_segment.cpp', 'sources/core/vertical_segment.h', 'sources/core/data.h'], [('get, set, matrix_view', 'sources/core/vertical_segment.cpp'), ('confidence_interval_columns', 'sources/core/vertical_segment.h')],
  REALS + 'Bounds: up to 3 input and 3 output dimensions, 3 samples, one update.')
P('P09', 'Comparison of data is a componentwise comparison up to the tolerance',
  'Two data objects compare equal exactly when their shapes and parametrizations are the same and all their values differ by at most the tolerance. Undefined values never compare equal to defined ones.',
  ['inputs'], 'all values of both objects and all tolerances, mismatch of each part of the shape',
  'Tests compare a file with itself or with an obviously different one.',
  ['sources/core/data.cpp', 'sources/core/data.h'], [('data::equals', 'sources/core/data.cpp')],
  REALS + 'Undefined values are handled bit-precisely in IEEE arithmetic. Bounds: 2 input and 2 output dimensions, up to 3 samples.')
P('P10', 'Distance metrics implement their formulas on the selected entries',
  'Comparing data with a reference yields the L1, L2, L3, maximum, mean squared and root mean squared distances of the values per output channel, evaluated at the abscissas of the reference, over the entries selected by the mask only. Data with another parametrization are converted first.',
  ['inputs', 'configurations'], 'all values of the data, the reference and the mask; all subsets of masked entries within the bounds',
  'The existing test checks identical data, for which every formula gives zero.',
  ['sources/core/metrics.cpp', 'sources/core/metrics.h'], [('errors::compute and the norms', 'sources/core/metrics.cpp')],
  REALS + 'Bounds: up to 3 entries, 2 channels, two parametrizations of the reference.')
P('P13', 'Parameter derivatives of the lobes are the derivatives of their values',
  'For each parametric lobe, Fresnel and shadowing term, the Jacobian entry of channel i and parameter j is the partial derivative of output value i with respect to parameter j, for all parameters within their declared bounds and all directions above the surface. The number of parameters, the parameter vector, its bounds and the Jacobian have consistent sizes, and parameters read back as they were set.',
  ['inputs'], 'all real parameter vectors between the declared bounds and all light and view directions above the surface (or all cosines in [-1,1])',
  'The repository has no test of any Jacobian; a wrong derivative only makes the fitting converge badly.',
  ['sources/plugins', 'sources/core/function.h'], [('parametersJacobian, value, parameters, setParameters', 'sources/plugins/nonlinear_function_*/function.cpp'), ('Fresnel and shadowing terms', 'sources/plugins/nonlinear_{fresnel,shadowing}_*/function.cpp')],
  REALS + 'The derivative oracle is symbolic differentiation of the value terms produced by executing value(). Bounds: 18 plugins, one and two channels, parameters within [0.05,3] (or [-3,3]) intersected with the declared bounds; points where the value is not differentiable take either side. The Jacobian of the SGD lobe is a known unfinished stub (known finding).')
P('P14', 'The analytic lobes evaluate their published formulas',
  'Each parametric lobe, Fresnel and shadowing term evaluates, per channel, its documented formula (Blinn, ABC, Lafortune, Beckmann, Ward, spherical gaussian, SGD, Schlick, Smith, Walter) as a function of the directions and of the parameters of that channel, with the documented value outside the domain.',
  ['inputs'], 'all real parameter vectors within bounds and all light and view directions above the surface',
  'No test evaluates a lobe against an independent formula, and fitting hides a wrong constant or a wrong direction.',
  ['sources/plugins', 'sources/core/params.cpp'], [('value', 'sources/plugins/nonlinear_function_*/function.cpp'), ('value', 'sources/plugins/nonlinear_{fresnel,shadowing}_*/function.cpp')],
  REALS + 'Oracle: formulas written independently in the harness from the class documentation. Bounds: 17 plugins and their lobe variants, one and two channels. The moment variant of the spherical gaussian and the Yoo lobe have no formula documented apart from the code.')
P('P15', 'A saved lobe loads as the same function',
  'Saving any parametric lobe, with or without appended export text, and loading the file in a new object of the same class yields the same parameters, lobe type and values. The header of the file declares the dimensions and parametrizations of the function.',
  ['inputs', 'histories'], 'all parameter vectors within bounds (to the precision written), all directions, every variant of each lobe',
  'Tests only load what the fitting commands of the test suite happen to save, mostly rational functions.',
  ['sources/plugins', 'sources/core/function.cpp', 'sources/core/args.h'], [('function::save and save_header', 'sources/core/function.cpp'), ('load, save_call', 'sources/plugins/nonlinear_function_*/function.cpp')],
  REALS + 'Bounds: 17 plugins, one and two channels; printed numbers are tokens carrying the exact value. The SGD lobe does not implement saving.')
P('P11', 'A sum of lobes behaves as the sum of its parts',
  'A compound function evaluates to the sum of its lobes, each in its own parametrization, its parameters are those of the lobes in order, its Jacobian holds the derivative of each lobe in the columns of its parameters, and setting, bounding, saving, loading and initialising it act on each lobe as on that lobe alone.',
  ['inputs', 'histories'], 'all parameter values and all abscissas, all numbers of parameters per lobe, channels and input parametrizations within the bounds, fixed lobes included',
  'The offsets only go wrong for some mix of lobe sizes, channels and fixed parts, which the test suite does not sample.',
  ['sources/core/function.cpp', 'sources/core/function.h'], [('compound_function', 'sources/core/function.cpp')],
  REALS + 'Parts are generic lobes (uninterpreted smooth functions) of up to 2 parameters; up to 3 parts, 2 channels; bootstrap files of one or several parts and without header.')
P('P12', 'A product of functions behaves as the product of its factors',
  'A product function evaluates to the channelwise product of its two factors, its parameters are those of the first then of the second, its Jacobian is the derivative of the product, and setting, saving, loading and initialising it act on each factor as on that factor alone.',
  ['inputs', 'histories'], 'all parameter values and all abscissas, all sizes and channels within the bounds',
  'Wrong offsets or a missing product rule term only show for particular sizes of the factors.',
  ['sources/core/function.cpp', 'sources/core/function.h'], [('product_function', 'sources/core/function.cpp')],
  REALS + 'Factors are generic lobes of up to 2 parameters with up to 2 channels in the same parametrization.')
P('P16', 'Distances between a function and data follow their definition',
  'The L2 distance of a function to data is the root of the mean over the samples of the squared norm of their difference, and the Linf distance is the largest absolute difference of a channel. Both evaluate the function once per sample, at the abscissa of the sample converted to the parametrization of the function.',
  ['inputs'], 'all values of the function, samples and abscissas for all shapes within the bounds',
  'The tests never check a distance against a value computed independently.',
  ['sources/core/function.cpp'], [('function::L2_distance, Linf_distance', 'sources/core/function.cpp')],
  REALS + 'Bounds: up to 3 samples, 2 channels, three pairs of parametrizations.')
P('P17', 'Rational functions are the ratio of their two expansions over the domain',
  'A rational function evaluates, per channel, to the quotient of the sums of its numerator and denominator coefficients times products of one dimensional basis polynomials (monomials, Legendre, Chebychev) of the abscissa normalised from the domain to [-1,1], a degenerate domain being widened. The cosine variant weighs the numerator by both cosines. Coefficients read back as given, up to the common factor that makes the first denominator coefficient one.',
  ['inputs', 'histories'], 'all coefficients, domains and abscissas, inside and outside the domain, for all four families',
  'Tests fit a few data sets with one family; the higher basis polynomials, the extrapolation and the normalisation are never compared with an independent formula.',
  ['sources/core/rational_function.cpp', 'sources/plugins'], [('value, p, q, update, get', 'sources/core/rational_function.cpp'), ('basis polynomials', 'sources/plugins/rational_function_*/rational_function.cpp')],
  REALS + 'Bounds: 1 to 3 inputs, 1 or 2 channels, up to 10 numerator and 4 denominator coefficients (degree 9 in one dimension, degree 3 in two).')
P('P18', 'The terms of a multivariate expansion enumerate every exponent once',
  'The mapping from the index of a coefficient to exponents lists every tuple of exponents exactly once, by increasing total degree, then by exponent of the last variable, then of the one before, and so on. The exponents of the i-th term thus determine i.',
  ['inputs'], 'all indices up to 130 in dimension one to six',
  'The counting is done in closed form per dimension; the tests only use dimension one to three with few coefficients.',
  ['sources/core/rational_function.cpp'], [('index2degree, populate, estimate_dk', 'sources/core/rational_function.cpp')],
  BITS + 'Bounds: dimensions 1 to 6, indices 0 to 99 (dimension up to 3) or 130; the index is symbolic and every path pins it.')
P('P19', 'A saved rational function loads as the same function',
  'Saving a rational function of any family writes its domain and every coefficient with its exponents, and loading the file, in a fresh function or one already in use, yields the same domain, coefficients and values.',
  ['inputs', 'histories'], 'all coefficients and domains (to the precision written), all abscissas, degenerate domains, fresh or used destination',
  'Tests evaluate saved functions on the data they were fitted to, always in a fresh object.',
  ['sources/core/rational_function.cpp', 'sources/core/function.cpp'], [('load, save_call, save_body', 'sources/core/rational_function.cpp'), ('function::save', 'sources/core/function.cpp')],
  REALS + 'Bounds: 1 to 3 inputs, 1 or 2 channels, 3 or 6 numerator and 2 or 4 denominator coefficients; printed numbers are tokens carrying the exact value.')
P('P20', 'Command lines and file headers yield the options they spell',
  'On a command line every word starting with -- defines an option, whose value is the next word unless that word starts with a dash, a value opened by a bracket extending to the word that closes it. The first definition of an option wins and nothing else is defined. Lists, numbers, pairs and defaults are read as written, get_cmd followed by create_arguments gives the same options, and a file header gives the value of each key (the last one given), ignoring comments and stopping at its end.',
  ['inputs'], 'all words up to three characters, all successions of options, values and lists, all keys and values within the bounds',
  'Tests call the programs with a few usual options; words in unusual positions and empty or repeated options are not covered.',
  ['sources/core/args.h'], [('arguments(argc, argv), get_vec, get_pair, get_cmd, create_arguments, parse_header', 'sources/core/args.h')],
  BITS + 'Bounds: up to 3 words of 3 arbitrary characters, or 4 words (5 thorough) each an option, a plain word or a part of a list; 2 options (3 thorough) for the round trip; lists of up to 4 numbers; headers of up to 3 lines of printable characters.')
P('P21', 'Plugins are found, combined and recorded as the options describe',
  'A plugin is the first library of the search path (entries of ALTA_PLUGIN_PATH in order, an empty entry being the installation directory) that has the requested entry point. Function options build the described sum of products of lobes and Fresnel terms, leaving out what cannot be combined, and default to a rational function. A function saved with its options loads as the same function, data and fitters come from the named plugin or the built-in container, and a function without parametrization takes that of the data.',
  ['inputs', 'configurations', 'histories'], 'all search paths and names within the bounds, every installation of the plugin in them, all parameter values, every combination of plugins, Fresnel terms and fixed parts',
  'Tests run with one plugin directory and a few function options; missing plugins, broken libraries and combinations are not covered.',
  ['sources/core/plugins_manager.cpp', 'sources/core/args.h', 'sources/core/function.cpp'], [('plugin_search_path, library_name, open_library', 'sources/core/plugins_manager.cpp'), ('get_function, load_function, get_data, load_data, get_fitter, check_compatibility', 'sources/core/plugins_manager.cpp')],
  REALS + 'The dynamic loader and the environment are replaced by stand-ins of the harness (the same in the native replay). Bounds: search paths of up to 3 entries of up to 2 characters, names of up to 4; up to 2 lobes with optional Fresnel terms. Changing the parametrization of data (--change-param) is an unfinished stub and is not covered.')
P('P22', 'MERL tables hold and look up the samples of their file',
  'A MERL file of the expected size yields, for every cell and channel, the stored value times the scale of that channel. Every configuration of the domain evaluates to the sample of its cell, whatever the sign of its azimuth difference, and to zero when a channel of that sample is negative (missing) or outside of the domain; set and get address the same sample, and saving then loading preserves the table. Truncated files and files with other dimensions are refused.',
  ['inputs', 'histories'], 'all contents of the table (1.4 million cells times three channels as one symbolic array), all cells, all positions within a cell, all values set',
  'The tests read one shipped table if any; an index error in one cell out of a million or at an edge of the domain is not sampled.',
  ['sources/plugins/data_io/merl.cpp'], [('read_brdf, lookup_brdf_val, theta_half_index, theta_diff_index, phi_diff_index', 'sources/plugins/data_io/merl.cpp'), ('get, set, value, save, load_data', 'sources/plugins/data_io/merl.cpp')],
  REALS + 'Bounds: full table of 90x90x180 cells; cell indices symbolic, positions within a cell anywhere in [0,1].')
P('P23', 'Gridded data interpolate linearly between the nodes of their grid',
  'A grid of samples over a parametrization has one node per combination of the requested sizes, spread regularly over the domain bounds included. Evaluating it anywhere in the domain gives the multilinear interpolation of the surrounding nodes, exactly the stored sample on a node, and outside of the domain the value of the closest point inside; set, get, save and load preserve all samples.',
  ['inputs', 'histories'], 'all sample values, all points of the domain and outside of it, nine parametrizations with known bounds',
  'Interpolation at the borders and for unequal sizes per axis is not exercised by the tests.',
  ['sources/plugins/data_interpolants/grid.cpp', 'sources/core/data_storage.cpp'], [('value, get, set, indices', 'sources/plugins/data_interpolants/grid.cpp'), ('provide_data, load_data', 'sources/plugins/data_interpolants/grid.cpp')],
  REALS + 'Bounds: 1 to 3 dimensions, 2 or 3 nodes per axis, 1 or 3 channels; positions within a cell anywhere in [0,1].')
P('P24', 'UTIA tables interpolate the samples of their file',
  'A UTIA table holds one sample per pair of light and view elevation (steps of 15 degrees) and azimuth (steps of 7.5 degrees) and channel, at the place its file defines. Evaluating it gives the multilinear interpolation of the surrounding samples, extrapolated linearly beyond the last elevation, periodic in both azimuths and black below the surface. Setting and saving (binary or EXR) preserve every sample, truncated files and images of another size are refused, and new data are black.',
  ['inputs', 'histories'], 'all contents of the table, all samples, all positions between samples, all truncations of the file',
  'The tests contain no UTIA table; a wrong stride or a missed wrap only shows at particular samples.',
  ['sources/plugins/data_io/utia.cpp', 'sources/plugins/data_io/EXR_IO.h'], [('value, get, set', 'sources/plugins/data_io/utia.cpp'), ('load, save, load_data, provide_data', 'sources/plugins/data_io/utia.cpp')],
  REALS + 'Bounds: the full table (82944 samples of three channels); interpolation along one axis at a time (plus the corner cells) with symbolic position, cell and contents. The EXR codec itself (tinyexr) is a stand-in that keeps the pixels.')
P('P25', 'Slices hold and look up the pixels of their image',
  'A two dimensional slice loaded from an EXR image evaluates, for each of its nine parametrizations, to the pixel whose cell contains the coordinates (the last pixel at the upper bounds, vertically or horizontally mirrored where the parametrization says so) and to zero outside its domain. Channels are recognised by name whatever their order, missing ones are zero. Setting, getting, saving and loading preserve the pixels, files that are not images are refused and new slices are black.',
  ['inputs', 'histories'], 'all pixel values and coordinates, all image sizes and channel orders within the bounds',
  'The tests contain no slice.',
  ['sources/plugins/data_io/slice.cpp', 'sources/plugins/data_io/EXR_IO.h'], [('value, get, set, min, max', 'sources/plugins/data_io/slice.cpp'), ('load, save, load_data, provide_data', 'sources/plugins/data_io/slice.cpp')],
  REALS + 'Bounds: images of up to 3x2 pixels; five orders or subsets of channels. The EXR codec itself (tinyexr) is a stand-in that keeps the pixels.')
P('P29', 'Nonlinear fitters minimise the squared distance to the data',
  'The Eigen, Ceres and NLopt fitters hand their library the sum over samples and channels of the squared difference between data and function (of its logarithms or weighted by the cosine when asked to), each sample converted to the parametrization of the function, with the exact derivatives, starting from the initial parameters and within the bounds of the function. The parameters found become those of the function, failures are reported, and the tolerance and iteration options reach the setting they name.',
  ['inputs', 'histories', 'configurations'], 'all samples, coefficients of the function, parameters and bounds, all points tried by the solver in any order, all answers of the solver, all combinations of options',
  'The tests fit a few data sets and only check that a file is produced; a wrong derivative or abscissa still converges to something.',
  ['sources/plugins/nonlinear_fitter_eigen', 'sources/plugins/nonlinear_fitter_ceres', 'sources/plugins/nonlinear_fitter_nlopt'], [('EigenFunctor, fit_data', 'sources/plugins/nonlinear_fitter_eigen/fitter.cpp'), ('CeresFunctor, fit_data, set_parameters', 'sources/plugins/nonlinear_fitter_ceres/fitter.cpp'), ('f, df, fit_data', 'sources/plugins/nonlinear_fitter_nlopt/fitter.cpp')],
  REALS + 'The solver libraries are replaced by a stand-in that evaluates the problem at arbitrary points and answers arbitrarily. Bounds: two samples, one or two channels and parameters, a function polynomial in its parameters with arbitrary coefficients, three pairs of parametrizations; logarithmic fits with one channel (two in the thorough tier).')
P('P28', 'Rational fits stay inside the confidence intervals',
  'The quadratic-program rational fitters report success only with a function inside the interval of every sample and channel. Each size asked for is tried once, in order, with the program that has one pair of constraints per sample, minimises the norm of the coefficients and has no linear term, up to the first that is solved; an infeasible program or a solver that gives up is never taken for a solution. The parallel fitter keeps the solution closest to the data among those of a size, and when it starts from some of the samples it ends with all of them. Data without intervals get relative ones; other functions and data are refused.',
  ['inputs', 'histories', 'configurations'], 'all samples and intervals, all answers of the solver (solution, infeasible, gave up) in any sequence, all sizes within the bounds',
  'A wrong constraint row still fits the usual data; the tests compare a few fits with stored files.',
  ['sources/plugins/rational_fitters/quadprog.cpp', 'sources/plugins/rational_fitters/quadprog_parallel.cpp', 'sources/plugins/rational_fitters/quadratic_program.h'], [('fit_data', 'sources/plugins/rational_fitters/quadprog.cpp'), ('fit_data', 'sources/plugins/rational_fitters/quadprog_parallel.cpp'), ('quadratic_program', 'sources/plugins/rational_fitters/quadratic_program.h')],
  REALS + 'QuadProg++ is played by the harness: any answer, and any vector satisfying the constraints it was given when it answers "solved". One-dimensional rational functions. Bounds: 2 to 4 samples, one or two channels and coefficients per polynomial (sizes up to four), one thread.')
P('P27', 'The command line tools convert every sample and function faithfully',
  'data2data writes one sample per physically valid input sample (all of them with --all-values): its abscissas in the requested parametrization (the one of the input when none is given), its values unchanged. A target with its own abscissas receives the value of the input at the same directions, zero below the surface. brdf2data evaluates the function at the directions of every sample (or subtracts it from the samples), brdf2brdf writes a file that loads back as the same function, data2brdf gives the loaded data, the requested function and all options to the fitter and saves the fitted function exactly when the fit succeeds. Failures give a nonzero exit code and no output file.',
  ['inputs', 'configurations'], 'all coordinates and values of the samples, all coefficients of the functions, all pairs of five parametrizations, all combinations of the options',
  'The tools are only run by the tests on two or three shipped files, without looking at the samples they write.',
  ['sources/softs/data2data/main.cpp', 'sources/softs/brdf2data/main.cpp', 'sources/softs/brdf2brdf/main.cpp', 'sources/softs/data2brdf/main.cpp'],
  [('convert_vertical_segment, convert_with_interpolation, compute_parameters', 'sources/softs/data2data/main.cpp'), ('main', 'sources/softs/brdf2data/main.cpp'), ('main', 'sources/softs/brdf2brdf/main.cpp'), ('main', 'sources/softs/data2brdf/main.cpp')],
  REALS + 'The main function of each tool is run symbolically; data, function and fitter plugins are played by the harness. Bounds: one or two samples, one or three channels; directions above the surface, and over the whole sphere for spherical and cartesian coordinates; text output without change of parametrization, binary output for all.', observe=['files written, exit code'])
P('P30', 'The quadratic programs are solved',
  'The quadratic program solver never gives up on a program it can solve: when some point satisfies the constraints it returns one that satisfies all of them and costs no more than any other, and its cost; otherwise it reports that there is none. This holds with every schedule of the constraints (the worst one, the worst ones, sliding windows of any size and growth) and with or without a factorised metric and a guess.',
  ['inputs', 'configurations'], 'all linear terms, offsets of the constraints and (in one dimension) slopes, all points compared, all six schedules, for the listed directions of the constraints',
  'A schedule that overlooks some constraints still solves the programs of the tests.',
  ['external/quadprog++/QuadProg++.cc'], [('solve_quadprog, solve_quadprog_with_guess', 'external/quadprog++/QuadProg++.cc'), ('partial_sort, add_constraint, delete_constraint, compute_d, update_z, update_r', 'external/quadprog++/QuadProg++.cc')],
  REALS + 'Bounds: one unknown and up to four constraints, two unknowns and up to three constraints whose directions are taken from ten fixed ones, two metrics; three unknowns and four constraints with directions taken from eight fixed ones, three of them violated at the start (optimality is decided by the conditions of Karush, Kuhn and Tucker); no equality constraint (ALTA uses none).')
P('P31', 'Algebraic rational fits solve the least-squares problems of the data',
  'The eigenvector fitter returns, for each channel, the coefficients whose direction minimises the sum over the samples of (p(x) - y q(x))^2, also when rounding makes the smallest eigenvalue negative, and fails when the decomposition fails. The least-squares fitter alternates the denominator minimising the sum of (y^2 q - y p)^2 and the numerator minimising that of (p / q - y)^2, as many times as --max-iter asks. Both write the coefficients of each channel in its own function and refuse data and functions of other kinds.',
  ['inputs', 'configurations'], 'all samples, all answers of the linear algebra (eigenvalues in any order and of any sign, solutions), within the bounds',
  'A fit with a wrong matrix is still a smooth curve; the regression files compare a few fits.',
  ['sources/plugins/rational_fitters/eigen.cpp', 'sources/plugins/rational_fitters/leastsquare.cpp'], [('fit_data', 'sources/plugins/rational_fitters/eigen.cpp'), ('fit_data', 'sources/plugins/rational_fitters/leastsquare.cpp')],
  REALS + 'The decompositions of Eigen are played by the harness, which checks the matrices they receive and answers arbitrarily. One-dimensional rational functions. Bounds: 2-3 samples, one or two coefficients per polynomial, one or two channels, one or two iterations.')
P('P32', 'The analysis tools write the statistics, moments and plots of the data they read',
  'brdf2stats and data2stats write, per channel, the L1, L2, L3, Linf, MSE and RMSE of the differences between the samples of a file and the function or interpolant evaluated at the same directions, also weighted by the cosines of the light and of both directions for brdf2stats. data2moments writes the moments up to order three, over a regular grid of the domain, of the interpolant minus the minimum of its samples, each divided by the mass, for the two dimensions asked. brdf2gnuplot writes one line per sample with the value of the function or its (relative) difference to the sample, or a polar slice at the inclination asked, times both cosines with --cos-plot. Requests that make no sense end with an error code and no output file.',
  ['inputs', 'configurations'], 'all samples, all linear functions and interpolants, all combinations of the parametrizations and options below, within the bounds',
  'The numbers in publications come from these tools; no test reads their output for more than one file.',
  ['sources/softs/fit2stat/fit2stat.cpp', 'sources/softs/data2stats/data2stats.cpp', 'sources/softs/data2moments/main.cpp', 'sources/softs/brdf2gnuplot/main.cpp', 'sources/core/metrics.h', 'sources/core/metrics.cpp'],
  [('main', 'sources/softs/fit2stat/fit2stat.cpp'), ('main', 'sources/softs/data2stats/data2stats.cpp'), ('main', 'sources/softs/data2moments/main.cpp'), ('main', 'sources/softs/brdf2gnuplot/main.cpp'), ('errors', 'sources/core/metrics.h')],
  REALS + 'The complete programs run symbolically, with plugins provided by the harness; numbers in the output are compared up to the digits that are written. Bounds: 1-3 samples (stats), 1-3 dimensions and at most 2x3x2 grid cells (moments), 4 samples of a polar slice; brdf2stats with functions of cartesian coordinates, the only ones it accepts; spherical, cartesian, isotropic, half-angle and cosine parametrizations, half-angle samples only against functions of the same, cartesian or cosine coordinates; directions above the surface.')
P('P33', 'RBF interpolants average the nearest samples of their file',
  'An interpolant made from a data file holds exactly the samples of that file. Evaluating it searches the three nearest samples of the point (all of them when there are fewer) and gives, per channel, the average of their values weighted by the inverse of their squared distance to the point (plus 1e-10), whichever samples the search answers. Saving it writes all samples in a text file that loads back as the same data.',
  ['inputs', 'histories'], 'all samples and points, all answers of the nearest neighbour search, within the bounds',
  'FLANN is not installed where the tests run: nothing tests this plugin.',
  ['sources/plugins/data_interpolants/rbf.cpp'], [('value, get, set, save', 'sources/plugins/data_interpolants/rbf.cpp'), ('load_data', 'sources/plugins/data_interpolants/rbf.cpp')],
  REALS + 'FLANN is played by the harness: it checks the points it indexes and is asked about, and answers any of them. Bounds: 1 to 3 dimensions, 1 to 4 samples, one or three channels.')
P('P34', 'ASTM measurements are loaded as they are in the file',
  'Loading an ASTM file gives the number of samples its header announces, with the columns named there: four angles are spherical coordinates, three are coordinates of unknown parametrization, R,G,B are colours and an integrated column is a radiance; every sample is the row of the file, the bounds are those of the samples, and blank lines and further keys in the header change nothing. Files that do not name their columns or end before the last sample are refused.',
  ['inputs'], 'all values of the samples, the four layouts of columns, three styles of header and rows, all truncations at the end of a row',
  'The tests load one ASTM file and do not look at its samples.',
  ['sources/plugins/data_io/astm.cpp'], [('parse_header, compute_parameters, load_data, provide_data', 'sources/plugins/data_io/astm.cpp')],
  REALS + 'Numbers are printed and read back exactly by the model of the streams. Bounds: 1 to 3 samples.')
P('P35', 'The Python module gives the objects and tools of the library',
  'From Python, vectors have the elements they were made of, add and subtract element by element, and print them; arguments have the entries of their dictionary; data objects and functions are made by the plugin, with the parametrization and arguments asked for; their samples, values, parameters, sums, products, files and fits are those of the objects behind them. data2data gives every sample in the requested parametrization, brdf2data sets the values of all samples to those of the function at the same directions, and data2stats gives all metrics. Indices out of range, vectors of different sizes and objects of other dimensions raise exceptions or change nothing.',
  ['inputs', 'configurations'], 'all elements, samples, coefficients and coordinates, all pairs of five parametrizations, all indices within and around the bounds',
  'Three scripts call a few functions with one vector of ones and two functions that are never evaluated.',
  ['sources/python/alta.cpp', 'sources/python/wrapper_vec.h', 'sources/python/wrapper_data.h', 'sources/python/wrapper_args.h'],
  [('data2data, brdf2data, data2stats, get_function, load_function, fit_data', 'sources/python/alta.cpp'), ('vec', 'sources/python/wrapper_vec.h'), ('data', 'sources/python/wrapper_data.h'), ('arguments', 'sources/python/wrapper_args.h')],
  REALS + 'The functions registered by the module are called by name through a stand-in for pybind11, which reproduces its conversions and choice of overload. Plugins are played by the harness. Bounds: vectors of 0 to 3 elements, 1 to 3 samples (one for conversions), one or three channels.')
