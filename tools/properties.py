#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run it to rewrite both)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, level_note, technique):
    if len(title) > 80: print("TOO LONG", len(title), title)
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None),
                  _note=level_note, _tech=technique))


A = "src/api/"

prop("P01", "Neighbour searches return exactly what a brute-force search would",
     "For every set of points or grid cells and every query location, the nearest-neighbour, N-closest, within-radius and neighbour-count queries return exactly the locations that an exhaustive comparison of straight-line distances selects (for grids as the right row/column pair), each location at most once; only locations exactly on the radius may go either way. "
     "Distances reported along with neighbours are the true distances of those same neighbours, and asking to exclude exact matches removes the locations that coincide with the query and nothing else. "
     "This holds for geodetic coordinates across the date line and the poles and for Cartesian coordinates.",
     ["inputs"], "all point sets / grids (incl. duplicates, antimeridian, poles, Cartesian), query locations, radii, counts and include-match flags",
     "Tests query a handful of points on 1-3 tiny latitude/longitude grids; they never compare with an exhaustive search and never cross the date line or a pole.",
     [A + "kdtree.cpp", A + "points.cpp", A + "grid.cpp"],
     [("R-tree queries in 3D Cartesian space with exact distance filter", A + "kdtree.cpp: KDTree::get_neighbours, get_closest_neighbours, get_nearest_neighbour"),
      ("flat index to row/column mapping", A + "grid.cpp: Grid::get_indices")],
     ["Points/Grid/KDTree query results"],
     "random point sets and grids up to ~60 locations; ties within float tolerance are accepted either way",
     "property-based testing: differential check of every query against an exhaustive double-precision search over generated point sets")

prop("P02", "Grids and point sets keep coordinates, metadata and type through every view",
     "A grid or point set reports exactly the coordinates, elevations, land-area fractions and coordinate type it was built with, and any derived set (a subset by index, the points inside a grid's domain, a grid flattened to points, a single point, a copy) carries the same metadata for each retained location in the same order. "
     "A location inside a grid cell is attributed to the box whose corners enclose it (unless the cell is so skewed that a node of another cell is closer) and locations outside the grid to none. "
     "Invalid latitudes, or point metadata of a different size, are refused at construction.",
     ["inputs"], "all grids and point sets (with and without elevations/land fractions, geodetic and Cartesian), all index lists and query points",
     "Tests construct one or two small sets and check sizes; derived sets are barely inspected, never for Cartesian coordinates or missing metadata.",
     [A + "points.cpp", A + "grid.cpp", A + "point.cpp", A + "util.cpp"],
     [("subset / get_in_domain / to_points / get_point", A + "points.cpp, " + A + "grid.cpp"), ("Grid::get_box and point_in_rectangle", A + "grid.cpp, " + A + "util.cpp")],
     ["getters of the derived sets", "box indices"],
     "random containers; boxes judged with a tolerance band around cell edges where either answer is accepted",
     "property-based testing: model-based comparison of every derived container with a plain-array model")

prop("P03", "Distances are metric and distance/count products agree with direct computation",
     "The distance between two locations is never negative or undefined, is zero for coinciding locations, is symmetric, never exceeds half the Earth's circumference on the sphere, and agrees with the great-circle (or planar) formula. "
     "The distance-to-N-th-nearest and count-within-radius products equal, at every output location, what direct computation over all input locations gives, for all combinations of grids and point sets.",
     ["inputs"], "all coordinate pairs incl. poles, antipodes, date line and near-identical points; all grids/point sets, N and radii",
     "Tests check a few hand-picked pairs; near-identical and antipodal pairs, where the formula is ill-conditioned, and the eight grid/point overloads are not sampled.",
     [A + "kdtree.cpp", A + "distance.cpp", A + "count.cpp"],
     [("great-circle distance", A + "kdtree.cpp: KDTree::calc_distance"), ("distance() and count() overloads", A + "distance.cpp, " + A + "count.cpp")],
     ["return values of distance, count, calc_distance"],
     "double-precision haversine / chord reference; tolerance for float cancellation",
     "property-based testing: reference model (haversine, exhaustive count/order statistics) plus metric-axiom invariants")

prop("P04", "Nearest-neighbour downscaling returns the value of the closest input location",
     "Every output of nearest-neighbour downscaling is the unmodified value (including a missing value) of an input location at minimal distance from the output location, whether input and output are grids or point sets, and each time or ensemble layer is treated exactly as if it had been downscaled alone. "
     "The generic downscaling entry point gives the same result as the method it names. "
     "Downscaling a field onto its own locations reproduces it.",
     ["inputs"], "all input/output geometries, values incl. missing, number of layers",
     "Tests use two or three fixed grids; the eight overloads share no code and are sampled with few sizes (often square, hiding transposed indices).",
     [A + "nearest.cpp", A + "downscaling.cpp"],
     [("nearest overloads", A + "nearest.cpp"), ("downscaling dispatcher", A + "downscaling.cpp")],
     ["output arrays"],
     "random grids up to 7x7, output sets up to 30 locations",
     "property-based testing: reference model (exhaustive nearest search) and overload-consistency relations")

prop("P05", "Bilinear downscaling is exact for bilinear fields and bounded by its corners",
     "Inside the input grid, bilinear downscaling reproduces any field that is bilinear in the grid cell (exactly at the grid points), never leaves the range of the four surrounding values, and treats each layer independently. "
     "Outside the grid, or when any surrounding value is missing, it gives the nearest-neighbour value. "
     "Outputs do not depend on whether they are requested as a grid or as points, nor on the orientation in which the grid is stored.",
     ["inputs"], "regular, stretched, rotated and sheared grids, flipped row/column order, any output location, values incl. missing",
     "Tests use a few axis-aligned grids and one rotated grid with fixed values; orientation and general quadrilaterals are not swept.",
     [A + "bilinear.cpp", A + "grid.cpp"],
     [("bilinear interpolation in parallelograms and general quadrilaterals", A + "bilinear.cpp"), ("enclosing box search", A + "grid.cpp: Grid::get_box")],
     ["output arrays"],
     "reference inverse-bilinear map in double precision; outputs closer than a tolerance to a cell edge accept either cell",
     "property-based testing: reference model (inverse bilinear mapping), bounds invariant and metamorphic storage-orientation relations")

prop("P06", "Gradient downscaling adds gradient times elevation and land difference",
     "Simple and full gradient downscaling give, at each output location, the nearest or bilinear value plus the gradient at that location times the elevation difference (plus the land-fraction gradient times the land-fraction difference when given), where an unknown elevation makes the simple version missing, and the full version leaves out a term with unknown elevation, land fraction or gradient. "
     "All overloads (grid or points, single field or layers, debug output) agree with each other, and zero gradients or equal elevations leave the downscaled field unchanged.",
     ["inputs"], "all geometries, elevation/land-fraction fields incl. missing, gradient fields, both base downscalers",
     "Tests check single constant gradients on small grids; layer handling, point outputs and missing metadata combine in far more ways.",
     [A + "simple_gradient.cpp", A + "gradient.cpp"],
     [("simple_gradient and full_gradient overloads", A + "simple_gradient.cpp, " + A + "gradient.cpp")],
     ["output arrays"],
     "composition reference built from the downscaling functions decided in P04/P05",
     "property-based testing: compositional reference model and overload-consistency relations")

prop("P07", "Neighbourhood statistics equal the statistic of the clipped square window",
     "For every field, half width and statistic, each cell of a neighbourhood result equals that statistic over the non-missing values in the square window clipped to the domain (all members together for ensembles), and is missing when the window holds no valid value. "
     "A half width of zero reproduces the field for location statistics; the optimised and the brute-force routines agree; rows and columns are treated alike (transposing or mirroring the input does the same to the output).",
     ["inputs"], "2D and 3D fields of any shape with missing values, half widths incl. larger than the field, all statistics",
     "Tests use a 5x5-ish and one random large field and a few half widths; the accumulated-sum, separable min/max and brute-force paths have separate edge handling.",
     [A + "neighbourhood.cpp"],
     [("summed-area table mean/sum/count/std", A + "neighbourhood.cpp: neighbourhood"), ("separable min/max", A + "neighbourhood.cpp: neighbourhood"), ("brute force", A + "neighbourhood.cpp: neighbourhood_brute_force")],
     ["output arrays"],
     "fields up to ~14x14x4; float tolerance scaled to the magnitude of the input",
     "property-based testing: differential check against a direct double-precision reference and metamorphic symmetries")

prop("P08", "Neighbourhood quantiles are exact, and the fast version brackets them",
     "Neighbourhood quantiles equal the interpolated quantile of the valid values in the clipped window (over all members for ensembles, all values counting equally) and are monotone in the quantile level. "
     "The fast approximation gives the interpolation of the empirical distribution at the supplied thresholds (cells count equally, and members within a cell equally), stays within the range of the thresholds, is missing where the window has no valid values, uses each cell's own level when a field of levels is supplied, and does not depend on how many threads compute it. "
     "Automatically generated thresholds are sorted and lie within the range of the data.",
     ["inputs", "schedules"], "fields, half widths, scalar and per-cell levels in [0,1], threshold lists, thread counts",
     "Tests check a handful of levels on one field with one thread; per-cell levels under threads and missing values are not explored.",
     [A + "neighbourhood.cpp", A + "util.cpp"],
     [("quantile and quantile_fast", A + "neighbourhood.cpp"), ("threshold generation", A + "neighbourhood.cpp: get_neighbourhood_thresholds")],
     ["output arrays"],
     "reference CDF interpolation; plateau positions (probability equal to the level) accept the whole plateau",
     "property-based testing: reference model, monotonicity relation and thread-count differential")

prop("P09", "Summary statistics ignore missing values and match their definition",
     "Mean, min, max, median, quantile, standard deviation, variance, sum and count of an array equal their textbook value over the non-missing elements, are missing (count: zero) when there are none, do not depend on the order of the elements, and scale correctly under shifting and scaling of the data. "
     "Quantiles use linear interpolation between order statistics and are monotone in the level, and a random choice always returns one of the valid elements. "
     "Row-wise and per-cell versions give the same as the scalar version applied to each row or cell.",
     ["inputs"], "all arrays incl. empty, all-missing, ties, large offsets; all levels in [0,1]",
     "Tests list around ten arrays; order dependence, large-offset cancellation and interpolation at every level need generated input.",
     [A + "util.cpp"],
     [("calc_statistic, calc_quantile", A + "util.cpp")],
     ["return values"],
     "double-precision reference; tolerances scaled by the data's magnitude",
     "property-based testing: reference model and metamorphic relations (permutation, shift, scale)")

prop("P10", "Sliding windows compute the statistic of exactly the window they describe",
     "Each element of a windowed array equals the statistic of the elements in its window (centred, or ending at the element), independent of other rows. "
     "Windows that reach outside the array are missing or shortened as requested, and missing elements are either skipped or make the window missing as requested (a count is always the number of valid elements).",
     ["inputs"], "all arrays (several rows, missing values), lengths, statistics and option combinations",
     "Tests cover one short row and a few lengths; edge, missing and statistic options interact.",
     [A + "window.cpp"],
     [("cumulative-sum and direct windows", A + "window.cpp: window")],
     ["output arrays"],
     "rows up to 14 elements",
     "property-based testing: differential check against a direct reference for all option combinations")

prop("P11", "Gridding aggregates exactly the observations that belong to each cell",
     "Gridding by radius gives at each grid cell (or output point) the requested statistic of the observations within the radius, and gridding by nearest cell the statistic of the observations whose closest cell it is; cells with fewer than the required number of observations (missing values included in that number), and nearest-cell results without any, are missing. "
     "No observation is lost, counted twice or attributed to another cell, and the order of the observations is irrelevant.",
     ["inputs", "schedules"], "all grids, point sets, values, radii, minimum numbers, statistics",
     "Tests use one grid with a few points; tie handling, order independence and the points-to-points variants are not explored.",
     [A + "gridding.cpp"],
     [("gridding and gridding_nearest overloads", A + "gridding.cpp")],
     ["output arrays"],
     "cases where a distance is within float tolerance of the radius or of a tie are avoided by construction",
     "property-based testing: reference model (exhaustive assignment) and permutation relation")

prop("P12", "Filling and doping change exactly the targeted cells",
     "Filling sets the given value in exactly the cells within (or outside) the radius of any of the points and leaves every other cell untouched; doping inserts an observation's value in exactly the cells of its square or circle whose elevation is within the limit (an unknown elevation does not exclude) and leaves all others untouched. "
     "Filling missing values leaves valid values untouched and replaces gaps by the linear interpolation between the valid values that bound them along the row or the column (the mean of both where both exist).",
     ["inputs"], "all grids, fields incl. missing, point sets, radii / half widths, elevation limits",
     "Tests check one or two placements on a small grid.",
     [A + "fill.cpp", A + "doping.cpp"],
     [("fill, fill_missing", A + "fill.cpp"), ("doping_square, doping_circle", A + "doping.cpp")],
     ["output arrays"],
     "grids up to 8x8, up to 5 points; cells within tolerance of the radius accept either answer",
     "property-based testing: reference model and untouched-cells invariant")

prop("P13", "Deterministic optimal interpolation solves the analysis equation exactly",
     "At every output location the analysis equals background plus the gain, computed from the structure function and error variances with the most correlated valid observations (at most the maximum number), applied to the innovations; the reported analysis variance is the corresponding posterior variance and, for a positive observation error variance and correlations that form a valid covariance, lies between zero and the background variance. "
     "Missing observations or missing background at observations are ignored, the order of observations does not matter, observations equal to the background leave the field unchanged, and locations uncorrelated with every observation keep their background value and variance. "
     "Gridded and point outputs agree.",
     ["inputs"], "all output geometries, observation sets, variances, structure functions, observation limits",
     "Tests solve a few 1-3 observation cases with hand-computed results; matrix assembly with several observations, selection by correlation and ordering are only sampled.",
     [A + "oi.cpp", A + "structure.cpp"],
     [("gain computation and observation selection", A + "oi.cpp: optimal_interpolation_full")],
     ["analysis and analysis variance"],
     "dense reference solution in double precision; up to 12 observations; cases with ties in correlation at the cut-off are avoided",
     "property-based testing: reference model (dense linear solve) and metamorphic relations")

prop("P14", "Optimal interpolation without extrapolation stays within the observed increments",
     "When extrapolation is disallowed, the change an analysis makes at any location never exceeds the largest innovation upwards nor the smallest innovation downwards among the observations used there (and zero), member by member for ensembles; allowing extrapolation changes nothing when the unconstrained analysis is already within that range.",
     ["inputs"], "all deterministic and ensemble analyses, observation sets and structure functions",
     "Tests check two hand-made cases for the deterministic scheme only.",
     [A + "oi.cpp", A + "oi_ensi.cpp", A + "oi_ensi_multi.cpp"],
     [("anti-extrapolation filter", A + "oi.cpp, " + A + "oi_ensi.cpp, " + A + "oi_ensi_multi.cpp")],
     ["analysis"],
     "negatively correlated, oversampled and ensemble configurations that provoke extrapolation",
     "property-based testing: bounds invariant and differential with the unconstrained analysis")

prop("P15", "Ensemble optimal interpolation equals the ensemble analysis equations",
     "The ensemble analyses (single-variable and multi-variable element-by-element and utility variants) equal the defining ensemble equations evaluated densely with the selected observations; members that are missing stay missing, locations without usable observations keep their background ensemble, and gridded and point outputs agree. "
     "An observation that is missing (for any of the members used, where members have their own) has no influence, and permuting observations or members permutes the result accordingly.",
     ["inputs"], "ensembles of any size with missing members, observation sets, structure functions, limits",
     "Tests compare a few outputs to stored numbers or only run the code; member/observation index errors that cancel for equal members are invisible to them.",
     [A + "oi_ensi.cpp", A + "oi_ensi_multi.cpp"],
     [("ensemble transform and gain", A + "oi_ensi.cpp: optimal_interpolation_ensi"), ("multi-variate variants", A + "oi_ensi_multi.cpp")],
     ["analysis ensembles"],
     "dense reference in double precision; ensembles up to 8, observations up to 8",
     "property-based testing: reference model (dense ensemble equations) and permutation/equivalence relations")

prop("P16", "Structure functions are valid, localised correlation functions",
     "For positive horizontal length scales (Linear instead takes minimum correlations in [0,1]), every structure function gives correlations in [0,1], equal to one for coinciding locations, symmetric in its arguments (for constant length scales), non-increasing in horizontal distance, in elevation difference of either sign and in land-fraction difference, and zero beyond the localisation distance it reports. "
     "A vector request equals the scalar requests, copies behave like the original, combined structures are the product of their parts, spatially varying scales use the scale at the first location, and cross-validation removes exactly the correlations closer than its distance. "
     "Static correlations between points and knots are these correlations for the knots within the localisation distance, limited to the given number of most correlated knots, and zero elsewhere.",
     ["inputs"], "all structure types and parameters, all pairs of points with/without elevation and land fraction",
     "Tests evaluate few point pairs per structure; sign of differences, cut-offs and vector paths vary independently.",
     [A + "structure.cpp"],
     [("Barnes, Soar, Toar, Powerlaw, Linear, Cressman, Multiple, CrossValidation", A + "structure.cpp"), ("staticcorr_points", A + "corr_points.cpp")],
     ["corr, corr_background, localization_distance"],
     "closed-form reference formulas; near the cut-off distance either answer is accepted",
     "property-based testing: closed-form reference and metamorphic relations (symmetry, monotonicity, scalar/vector, clone)")

prop("P17", "Transforms are monotone and invertible on their domain",
     "Applying a transform forward and then backward returns the original value (within rounding) on its stated domain, forward and backward are non-decreasing, each equals its published closed form, missing values stay missing, and arrays are transformed element by element with shape preserved. "
     "Quantiles of the gamma distribution invert its distribution function, and invalid parameters are refused.",
     ["inputs"], "all transforms, parameters and values in range, arrays of 1-3 dimensions",
     "Tests check a few values for one parameter set per transform.",
     [A + "transform.cpp", A + "distribution.cpp"],
     [("Identity, Log, BoxCox, StartedBoxCox, Gamma", A + "transform.cpp")],
     ["forward/backward results"],
     "round-trip tolerance derived from the transform's local slope",
     "property-based testing: round-trip, monotonicity and scalar/array differential")

prop("P18", "Applying a calibration curve interpolates inside and extrapolates as requested",
     "Inside the curve the result is the linear interpolation between the surrounding curve points; outside it follows the requested extrapolation policy on that side; all array versions equal the scalar version element by element (each grid cell with its own curve). "
     "Missing input stays missing, and a curve with no slope problem is continuous at its end points. "
     "Linear interpolation of tables follows the documented rule for repeated points, and the monotone correction of a curve returns points of the curve with non-decreasing values, keeping a curve whose points rise by more than the method's minimum separation (0.1) unchanged.",
     ["inputs"], "all curves (one point, repeated points, non-monotone), values inside/outside/at the ends, all policy pairs",
     "Tests cover one curve with a few values per policy; policy pairs, single-point curves and repeated points are not swept.",
     [A + "curve.cpp", A + "util.cpp"],
     [("apply_curve, monotonize_curve", A + "curve.cpp"), ("interpolate, get_lower_index, get_upper_index", A + "util.cpp")],
     ["return values"],
     "repeated curve points accept any value on the vertical segment",
     "property-based testing: reference model and continuity/monotonicity relations")

prop("P19", "Verification scores and calibration curves match contingency-table definitions",
     "A score computed from series and thresholds equals the score of the contingency table counted over all pairs, lies within the score's theoretical range, is best for perfect forecasts, and is unaffected by the order of the pairs. "
     "A quantile-mapping curve pairs the quantiles of forecasts with those of the reference, is non-decreasing, and reproduces the reference climate; an optimised threshold never scores worse than any of ten thresholds spread evenly over the forecasts. Pairs with a missing value are not counted. "
     "The neighbourhood score is the score of the table collected from the cells with observations in the window.",
     ["inputs"], "all paired series, thresholds, metrics, quantile lists",
     "Tests list a few tables; order dependence and optimality over many series need generation.",
     [A + "metric_optimizer.cpp", A + "quantile_mapping.cpp", A + "neighbourhood_score.cpp"],
     [("calc_score, get_optimal_threshold, metric_optimizer_curve", A + "metric_optimizer.cpp"), ("quantile_mapping_curve", A + "quantile_mapping.cpp")],
     ["return values"],
     "series up to 40 pairs",
     "property-based testing: reference model (contingency counting) and permutation/optimality relations")

prop("P20", "Meteorological diagnostics are physically consistent",
     "Relative humidity and dew point invert each other up to the accuracy of their published approximations, dew point never exceeds temperature for humidities up to saturation, wet-bulb temperature lies between dew point and temperature, pressure reduction to another elevation is reversible and decreases with height, sea-level pressure and QNH equal station pressure at zero altitude, and wind speed and direction reproduce the wind components. "
     "Diagnostics follow their published formulas, give missing for missing input, and the array versions equal the scalar version element by element.",
     ["inputs"], "all values in meteorological range, missing values, array sizes",
     "Tests compare a few values per function.",
     [A + "humidity.cpp", A + "pressure.cpp", A + "qnh.cpp", A + "wind.cpp"],
     [("dewpoint, relative_humidity, wetbulb", A + "humidity.cpp"), ("pressure, sea_level_pressure, qnh", A + "pressure.cpp, " + A + "qnh.cpp"), ("wind_speed, wind_direction", A + "wind.cpp")],
     ["return values"],
     "meteorological value ranges; closed-form reference formulas in double precision",
     "property-based testing: closed-form reference, round-trip and monotonicity relations")

prop("P21", "Probabilistic downscaling counts members cell by cell",
     "Downscaled probabilities equal the fraction of valid ensemble members at the nearest input cell that satisfy the comparison with the output cell's own threshold, lie in [0,1], and complementary comparisons sum to one (no member satisfies a comparison with a missing threshold). "
     "Masked consensus and quantile downscaling pick, member by member, the value from the true or the false field according to the comparison at the nearest cell, and then apply the statistic to the picked values.",
     ["inputs"], "all grids, ensembles incl. missing members, per-cell thresholds, comparison operators, statistics",
     "Tests cover a single small grid with constant thresholds.",
     [A + "downscale_probability.cpp", A + "mask_threshold_downscale_consensus.cpp"],
     [("member counting", A + "downscale_probability.cpp"), ("masking and consensus", A + "mask_threshold_downscale_consensus.cpp")],
     ["output arrays"],
     "grids up to 6x6, up to 6 members",
     "property-based testing: reference model and complement relation")

prop("P22", "Local gradients and targeted searches use exactly their neighbourhood",
     "A local gradient equals the linear-regression slope (or the max/min ratio) over the valid pairs in the clipped window, and the default gradient where there are too few pairs or too small a range; a field exactly linear in its base returns that slope everywhere it is defined. "
     "A neighbourhood search gives the mean over the window of the values whose search value is within the target range; if there are none, the value whose search value is closest to the range among those that differ from the cell's own search value by at least the given delta; otherwise, outside the apply mask, and without a search value, the cell is unchanged. "
     "Smart-neighbour downscaling is the mean over the requested number of most correlated cells within the localization distance, and the local distribution correction quantile-maps the background with the observations inside that distance, keeping the background where there are none.",
     ["inputs"], "all fields incl. missing, half widths, options, masks",
     "Tests use one or two small fields with few options.",
     [A + "calc_gradient.cpp", A + "neighbourhood_search.cpp", A + "smart.cpp", A + "local_distribution_correction.cpp"],
     [("calc_gradient", A + "calc_gradient.cpp"), ("neighbourhood_search", A + "neighbourhood_search.cpp"), ("smart", A + "smart.cpp"), ("local_distribution_correction", A + "local_distribution_correction.cpp")],
     ["output arrays"],
     "fields up to 9x9",
     "property-based testing: reference model and exactness-on-linear-fields relation")

prop("P23", "Results do not depend on the number of threads",
     "Every operation that computes in parallel returns the same values whatever the number of threads, on every run: using more threads changes neither results nor which cells are computed, and no thread reads or writes memory that another one writes without synchronisation between them.",
     ["inputs", "schedules"], "all parallel operations on generated inputs, thread counts 1 to 16, repeated runs",
     "Tests run with the default of one thread, so a shared variable in a parallel region is never exercised.",
     [A + "neighbourhood.cpp", A + "oi.cpp", A + "oi_ensi.cpp", A + "oi_ensi_multi.cpp", A + "gridding.cpp", A + "nearest.cpp", A + "bilinear.cpp", A + "gradient.cpp", A + "smart.cpp", A + "local_distribution_correction.cpp", A + "util.cpp", A + "downscale_probability.cpp", A + "mask_threshold_downscale_consensus.cpp", A + "window.cpp"],
     [("OpenMP work sharing with private variables", "all '#pragma omp' regions in src/api")],
     ["output arrays with set_omp_threads(1) and set_omp_threads(n)"],
     "bitwise comparison of repeated multi-threaded runs with the single-threaded run. The API is compiled with instrumented memory accesses and linked with an OpenMP runtime of our own (lib/omp_fuzz.cpp), which runs the threads as coroutines, switches between them at random accesses, and reports conflicting accesses that are not ordered by a critical section or barrier; loops with static schedules only. A second run uses the real runtime with 2 to 16 threads",
     "property-based testing: differential between thread counts over generated inputs, under randomised interleavings with a happens-before race detector")

prop("P24", "No input makes the library touch memory it does not own or die",
     "Whatever sizes, values and options are passed, a call either returns a result of the documented shape or reports an invalid-argument or runtime error; it never reads or writes outside its data, aborts the process or runs forever. "
     "Inconsistent sizes and out-of-range parameters are rejected, also in rows, layers or arrays other than the first.",
     ["inputs"], "valid and deliberately inconsistent arguments of all array operations: empty arrays, mismatched sizes, negative or huge parameters, missing values everywhere",
     "Tests pass a few invalid arguments per function and run without memory checking.",
     [A + "*.cpp"],
     [("argument validation and index arithmetic in every operation", "src/api")],
     ["process status under AddressSanitizer/UndefinedBehaviorSanitizer", "exception type", "output shape"],
     "sanitizer build; ragged arrays, wrong sizes, empty inputs, extreme and non-finite values, unknown enumeration values. Out of scope: memory exhaustion, half widths above 10^6, and ragged arrays in functions that have no grid or second array to compare them with (from Python such arrays are rectangular)",
     "fuzzing: structure-aware random argument fuzzing of every operation in a sanitizer build, plus all other generators re-run in it")


C = "src/client/"

prop("P25", "Arrays cross the Python boundary unchanged and errors become exceptions",
     "Calling an operation from Python with lists or numeric arrays of any shape, memory layout or element type gives exactly the result of the same operation on the same numbers, with missing values preserved and inputs unmodified. "
     "Invalid arguments surface as Python exceptions, and array versions of an operation equal its scalar version.",
     ["inputs"], "arrays of 1-3 dimensions, any length, C/Fortran/strided layout, float32/float64/int types, lists, empty arrays",
     "Python tests pass small contiguous arrays with few types.",
     ["swig/gridpp.i", "swig/vector.i", A + "swig.cpp"],
     [("typemaps for vectors", "swig/vector.i"), ("exception mapping", "swig/gridpp.i")],
     ["Python return values and exceptions"],
     "differential between array layouts/types and numpy reference computations",
     "property-based testing: metamorphic relations across array representations and numpy reference")

prop("C01", "NetCDF files round-trip and keep everything that was not asked to change",
     "Reading a variable of a NetCDF file at a time (and level) gives, for every cell and member, the stored value unpacked by scale_factor and add_offset, or missing where the stored value is the fill value (_FillValue, or the default of the type) or not a number; "
     "the grid positions, altitudes (or geopotential), land area fractions, times and reference time are those of the file. "
     "Writing a set of variables stores exactly the values the program holds, at the place they are read from, to the precision of the storage type (missing values as the fill value), so that reading them again returns them, also after several rounds of reading, changing, adding and writing; a variable that is not in the file is added. "
     "Every other value, variable, attribute and dimension stays as it is, except for what writing documents: the history and conventions, the time and reference time variables and their standard attributes, coordinates, units and standard name of written variables, and an altitude variable if altitudes are known and there is none. "
     "This holds for short, int, float and double variables, y, x, optional time, ensemble and level dimensions (by their standard names or options) in any order, times with or without a dimension, one- or two-dimensional latitudes and longitudes, and classic, 64-bit and NetCDF-4 files.",
     ["inputs", "histories"], "files of all layouts above with field and other variables, any set of written variables, repeated rounds of reading, changing and writing",
     "Tests copy a few fixed example files and inspect single values.",
     [C + "File/Netcdf.cpp", C + "File/File.cpp", C + "NetcdfUtil.cpp"],
     [("field read/write with dimension mapping and packing", C + "File/Netcdf.cpp"), ("cache of fields", C + "File/File.cpp")],
     ["file content after write, read through the NetCDF library", "fields and coordinates as the program sees them"],
     "generated files up to 30x30 cells, 3 members, 6 times, 3 levels; variables without y and x, or without the ensemble dimension the file has, are not written as fields; packed or missing latitudes and the missing_value attribute are not covered; text formats are not covered",
     "property-based testing: stateful round-trip against a model of the file, checked through the NetCDF library")

prop("C02", "Parameter files return the parameters of the nearest location at the right time",
     "Parameter sets stored for locations and times are returned for the requested time and location: those of the location itself if it has some for that time, otherwise those of the nearest location that has (by distance on the earth, or nothing if neighbours are not asked for); "
     "the same everywhere for a file without locations; a file with one time applies to all times, and the times repeat if the file is declared cyclic. "
     "This holds in memory and for text and NetCDF files as laid out by their documentation (any set of locations and times, locations with a missing elevation, last line with or without newline, gridded or not, any dimension order and name option). "
     "Writing parameters to a text or NetCDF file and reading it back gives the same locations, times and parameters (to the precision of single precision numbers); a set that is missing in a NetCDF file comes back as missing values.",
     ["inputs", "histories"], "sets of locations, times and parameters in text, NetCDF and in-memory form",
     "Tests read fixed files and compare a few values; write followed by read is barely exercised.",
     [C + "ParameterFile/ParameterFile.cpp", C + "ParameterFile/Text.cpp", C + "ParameterFile/Netcdf.cpp"],
     [("nearest location lookup and caching", C + "ParameterFile/ParameterFile.cpp"), ("file formats", C + "ParameterFile/Text.cpp, Netcdf.cpp")],
     ["getParameters results"],
     "up to 6 locations, 4 times, 5 parameters",
     "property-based testing: stateful model comparison and round-trip")

prop("C03", "Command-line calibrators transform each field exactly as their method says",
     "Each calibration method changes only its target variable (and outputs it names) and yields at every cell, time and member the value its documented method prescribes: accumulation and de-accumulation over a window, limits (qc), thresholds, minimum clouds where there is precipitation, sorting of members, statistics in time windows and in neighbourhoods, masks and overrides around locations, altitudes from locations, precipitation phase, wind factors by direction, wind components, speed and direction, humidity quantities, sea-level pressure (qnh), quantile mapping with its four extrapolation policies, polynomial and multivariate regression, the coastal gradient, biases at locations spread over the grid by kriging (covariances by distance and elevation, cross validation, weights of an auxiliary variable), observations merged by optimal interpolation (with the spread of the ensemble, or a fixed structure with few members; localization, cross validation, bounded increments), and the zero-adjusted gamma, Gaussian and Box-Cox t ensemble distributions (members keep their order; probabilities and quantiles of precipitation). "
     "The parameters are those of the time and location they are given for, the same everywhere for parameters without location. Neighbouring cells enter with their values from before the calibration. "
     "Missing inputs or parameters never turn into values: the result is missing, or the field stays as it is where the method only adjusts it, and members that are missing are left out of statistics.",
     ["inputs", "configurations"], "all fields incl. missing values, ensembles, times, parameters at locations and times, option combinations",
     "Tests use one small example file and default options.",
     [C + "Calibrator/*.cpp"],
     [("calibrators", C + "Calibrator"), ("options", C + "Options.cpp"), ("parameters at a location", C + "ParameterFile/ParameterFile.cpp")],
     ["fields after calibration"],
     "fields up to 14x14 cells, 8 times, 8 members; the transform, bias and inflation-variable options of the oi calibrator, its observations at later times, and the training of parameters are not covered; dewpoints at zero humidity, and oddities where a diagnostic input is missing but the output variable exists, are not decided",
     "property-based testing: reference model per calibrator, in-memory files")

prop("C04", "Command-line downscalers pick and combine the right input cells",
     "Each downscaling method gives at every output cell, time and member the value its method prescribes from the input cells it names: the closest cell (within 10 m), the surrounding cells combined bilinearly (rectilinear or moderately rotated and sheared grids with cells of comparable width and height; the closest cell outside the grid), the cells with the most similar elevation within the search radius, the mean, quantile or other statistic of the input cells whose nearest output cell it is, or the nearest cell corrected by a constant or regression gradient (elevation and land fraction, with its limits) or by the pressure difference. "
     "An output cell without a position is missing, missing input stays missing where nothing valid can replace it, and files with different numbers of times are refused with the output left as it was.",
     ["inputs", "configurations"], "all input/output grid geometries, elevations incl. missing, fields, options",
     "Tests use fixed example files with few option values.",
     [C + "Downscaler/*.cpp", C + "KDTree.cpp"],
     [("downscalers", C + "Downscaler"), ("nearest neighbour tree", C + "KDTree.cpp")],
     ["output fields"],
     "grids up to 6x6",
     "property-based testing: reference model per downscaler")

prop("C05", "The client's options, dates, distances and statistics match their definition",
     "Options given as text yield exactly the keys and values in the text, typed access returns the parsed value or reports its absence, options survive conversion to text and back, and variables keep the options they were given and are the same when name and level are. "
     "Dates and Unix times convert to each other in agreement with the proleptic Gregorian calendar, before 1970 too; distances are great-circle distances and symmetric; statistics and quantiles of a list ignore missing values and equal their definition; "
     "piecewise-linear interpolation, matrix inverse and linear regression satisfy their defining equations; logit and its inverse undo each other; word splitting and file copying keep the content.",
     ["inputs"], "all option strings in the documented syntax, all dates from year 1400 to 9998, all value lists incl. missing values",
     "Tests check a few strings, dates and lists.",
     [C + "Options.cpp", C + "Util.cpp", C + "Variable.cpp"],
     [("option parsing", C + "Options.cpp"), ("date, distance, statistics and text utilities", C + "Util.cpp"), ("variable descriptions", C + "Variable.cpp")],
     ["parsed options, converted values"],
     "up to 8 options, lists up to 12 values, matrices up to 6x6",
     "property-based testing: round-trip and reference model (independent calendar algorithm, defining equations)")

prop("C06", "The command-line program writes what its schemes define and nothing else",
     "Running the program on one or several pairs of NetCDF files gives, for each requested variable, the output file the values of the input variable (-vi, an alias of -va with its level, or the variable of the same name) downscaled by the last -d method given for it (the nearest neighbour when none is) and then changed by its -c methods in the given order, each with its own options and parameter file; a variable listed twice counts once, its first time. "
     "The variables are written with their units and standard name unless they have write=0, together with the times and the reference time of the input; all other variables, attributes and dimensions of the output file, and all bytes of the input file, stay as they were. The order of independent arguments and the place of --debug do not matter. "
     "Invalid command lines (an unknown method, a missing file, input variable, name or parameter file, different numbers of input and output files, settings or a shape of parameter file that a calibrator does not accept) are refused with an error and leave all files as they were.",
     ["inputs", "configurations"], "generated NetCDF input and output files (also in place, also several pairs) and command lines with up to 3 variables, each with a downscaler and up to three calibrators, aliases, parameter files and variable options",
     "Tests run a few fixed command lines on example files and mostly look at the exit code.",
     [C + "Driver/Gridpp.cpp", C + "Setup.cpp", C + "File/File.cpp", C + "File/Netcdf.cpp"],
     [("scheme execution", C + "Driver/Gridpp.cpp"), ("command line", C + "Setup.cpp"), ("fields in memory", C + "File/File.cpp")],
     ["output file", "exit status and error message"],
     "same number of times and members in input and output; parameter files in text format; 7 downscalers and 15 calibrators",
     "property-based testing: end-to-end runs of the built program compared with a reference composition of the methods on a model of the files")

NOT_APPLICABLE = {}


def claimed():
    """Properties with a check: those registered in checks.json"""
    with open(os.path.join(VERIF, "tools", "checks.json")) as f:
        return json.load(f)


def main():
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    have = claimed()
    checks = []
    na = []
    for p in P:
        if p["id"] in have:
            checks.append({
                "property": p["id"],
                "quick_cmd": "python3 /verif/check.py %s quick" % p["id"],
                "thorough_cmd": "python3 /verif/check.py %s thorough" % p["id"],
                "technique": p["_tech"],
                "level": "exploration",
                "level_note": p["_note"],
                "evidence_file": "evidence/%s.json" % p["id"],
            })
        else:
            na.append({"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "check not built yet")})
    m = {"version": 1, "setup_cmd": "python3 /verif/setup.py", "checks": checks, "not_applicable": na,
         "notes": "All checks build the code under test from /repo's working tree into /verif/build (git-ignored) and drive it with the generators in /verif/props and /verif/pyprops; see DESIGN.md."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
