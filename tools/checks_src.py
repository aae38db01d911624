#!/usr/bin/env python3
"""Writes checks.json: which harness decides which property, and the rule for a non-trivial case."""
import json
import os
C = {}


def api(pid, rule, extra=None, **kw):
    C[pid] = {"runs": [{"targets": ["bin/%s_opt" % pid], "cmd": ["{build}/bin/%s_opt" % pid], "quick_args": ["--scale", "4"]}] + (extra or []), "rule": rule, **kw}


def client(pid, quick="0.1", thorough="0.05"):
    """the same cases under AddressSanitizer and UBSan"""
    return [{"targets": ["bin/%s_san" % pid], "cmd": ["{build}/bin/%s_san" % pid, "--tag", "sanitized"], "quick_args": ["--scale", quick], "thorough_args": ["--scale", thorough]}]


api("P01", "random point sets / grids (geodetic incl. date line and poles, Cartesian, duplicates) with a random query; non-trivial: at least two locations, and the radius selects some but not all (exact_boundary: a location lies exactly on the radius)")
api("P02", "random point sets and grids with optional metadata, and derived sets / boxes; non-trivial: at least two locations and a proper, non-empty subset (boxes: the query is clearly inside a cell; refused: the arguments are invalid)")
api("P03", "random pairs / triples of locations incl. near-identical and antipodal ones, and random input and output sets; non-trivial: distinct locations (metric), or a radius that selects some but not all (products)")
api("P04", "random input and output geometries, 1-3 layers; non-trivial: at least two input locations with different values")
api("P05", "random regular, stretched, rotated, sheared or distorted grids and output sets; non-trivial: at least one output clearly inside a cell")

api("P06", "random geometries, elevations / land fractions incl. missing and gradient fields; non-trivial: the elevation or land correction is non-zero at some output")
api("P07", "random 2D / 3D fields with missing values; non-trivial: the field varies and the half width is at least one and smaller than the field")
api("P08", "random fields, levels, thresholds and thread counts; non-trivial: half width > 0 with more than two cells and a level strictly between 0 and 1 (fast: strictly inside the distribution; threads: >= 50 cells; thresholds: more than two distinct values and fewer thresholds than values)")
api("P09", "random arrays with ties, missing values and large offsets; non-trivial: at least two valid values")
api("P10", "random rows, lengths, statistics and options; non-trivial: more than two elements and 1 < length < 2 x elements")
api("P11", "random grids / points, observations and radii; non-trivial: some cell has two or more observations and some cell none")
api("P12", "random grids, fields and points; non-trivial: some cells are changed and some kept (fill_missing: a gap is filled)")
api("P13", "random grids / point sets, up to 12 observations, structure functions, variances and observation limits; non-trivial: some location uses at least two observations and its analysis differs from the background (overloads: the grid is changed)")
api("P14", "random deterministic and ensemble analyses that provoke extrapolation; non-trivial: the limit changes some increment")
api("P15", "random ensembles with missing members and observations; non-trivial: at least two observations and two members are used at some location")
api("P16", "random structure functions (constant and spatially varying scales, combinations) and pairs of points; non-trivial: some correlation strictly between 0.01 and 0.99 (refused: an invalid scale)")

api("P17", "random transforms, parameters and values over the stated domain, arrays of 1-3 dimensions, gamma levels; non-trivial: not the identity and a positive value (arrays: several values in each dimension; refused: the argument is invalid; gamma_quantiles: more than one element)")
api("P18", "random curves with repeated, unsorted and single points, all policy pairs, values inside, at and outside the ends; non-trivial: two or more points and the value inside, or outside with different policies (monotonize: some points kept and some removed)")
api("P19", "random series with ties and missing values, thresholds, metrics and quantiles; non-trivial: all four table entries positive / the optimal score below one / more than two pairs")
api("P20", "random meteorological values and missing values, arrays; non-trivial: humidity below one, differing elevations, non-zero wind components; arrays of more than one value")
api("P21", "random grids, ensembles with missing members, thresholds equal to values, all comparisons and statistics; non-trivial: some but not all members satisfy the comparison")
api("P22", "random fields with missing values, masks, structures and options; non-trivial: more than two pairs with enough range (gradient), several candidates (search), more cells than neighbours (smart), several values on the curve (distribution)")

api("C02", "random sets of locations, times and parameters in memory, text and NetCDF files of all layouts, queried at and between the locations; non-trivial: a parameter set is found, and there are several locations or times", client("C02"))
api("C01", "random NetCDF files (formats, dimension orders, types, packing, fill values, attributes), read, changed and written in several rounds, compared with the file as the NetCDF library sees it; non-trivial: several cells and several times or members", client("C01"))
api("C03", "random fields, parameters and options for each calibrator on in-memory files; non-trivial: several cells and several times or members, and where it applies several parameters or locations", client("C03"))
C["C03"]["runs"][0]["quick_args"] = ["--scale", "12"]
api("C04", "random rectilinear, rotated and descending input grids and output points with missing values, elevations and land fractions; non-trivial: the result depends on more than one input cell or option (nearest, tree: several candidates)", client("C04"))
api("C05", "random option texts, variables, dates, pairs of locations, lists with missing values, matrices and files; non-trivial: several options, values or words (calendar: not at midnight; distance: distinct locations; inverse and regression: well conditioned)", client("C05"))
C["C06"] = {"runs": [
    {"targets": ["bin/C06_opt", "bin/gridpp_opt"], "cmd": ["{build}/bin/C06_opt"], "quick_args": ["--scale", "1"]},
    {"targets": ["bin/C06_san", "bin/gridpp_san"], "cmd": ["{build}/bin/C06_san", "--tag", "sanitized"], "quick_args": ["--scale", "0.08"], "thorough_args": ["--scale", "0.05"]},
], "rule": "random pairs of NetCDF files and command lines with several variables, methods, options, aliases and parameter files, run with the built program; non-trivial: several variables or calibrators, and several cells (refused: the command is invalid)"}

C["P23"] = {"runs": [
    {"targets": ["bin/P23_race"], "cmd": ["{build}/bin/P23_race", "--tag", "interleaved"], "quick_args": ["--scale", "6"], "thorough_args": ["--scale", "2"]},
    {"targets": ["bin/P23_opt"], "cmd": ["{build}/bin/P23_opt", "--tag", "threads"], "quick_args": ["--scale", "0.4"], "thorough_args": ["--scale", "0.05"]},
], "rule": "every operation of the API with a parallel loop, with random valid arguments, with 1 and with 2-16 threads, under random interleavings (own OpenMP runtime, instrumented accesses) and with the real runtime; non-trivial: more than two distinct values in the result and, in the instrumented run, a parallel region with more than one thread"}
C["P24"] = {"runs": [
    {"targets": ["bin/P24_san"], "cmd": ["{build}/bin/P24_san", "--tag", "arguments"], "quick_args": ["--scale", "4"], "thorough_args": ["--scale", "2"], "env": {"OMP_NUM_THREADS": "2"}},
    {"targets": ["bin/all_san"], "cmd": ["{build}/bin/all_san", "--all-props", "--crash-only", "--tag", "sanitized"], "quick_args": ["--scale", "0.03"], "thorough_args": ["--tier", "quick", "--scale", "0.4"], "env": {"OMP_NUM_THREADS": "2"}},
], "rule": "every operation of the API with valid, unusual (empty, huge, non-finite, unsupported) and inconsistent arguments, and all cases of the other properties, under AddressSanitizer and UBSan; non-trivial: an inconsistent argument that is refused, or unusual arguments that give a result (sanitized: as in the other properties)"}

PY = ["/usr/bin/python3", "-W", "ignore", "{verif}/pyprops/P25.py"]
C["P25"] = {"runs": [
    {"targets": ["py_opt/_gridpp_swig.so", "py_opt/gridpp.py"], "cmd": PY, "quick_args": ["--scale", "2"], "thorough_args": ["--scale", "1"],
     "env": {"GRIDPP_PY": "{build}/py_opt", "OMP_NUM_THREADS": "1"}},
    {"targets": ["py_san/_gridpp_swig.so", "py_san/gridpp.py"], "cmd": PY + ["--tag", "sanitized"], "quick_args": ["--scale", "0.3"], "thorough_args": ["--scale", "0.05"],
     "env": {"GRIDPP_PY": "{build}/py_san", "OMP_NUM_THREADS": "1", "LD_PRELOAD": "{libasan}", "PYTHONMALLOC": "malloc"}},
], "rule": "55 operations of the Python module with random arguments, given as arrays of 18 element types and 9 memory layouts, lists, tuples and wrapped vectors; bad objects and sizes; scalar and array versions; numpy references; sequences of object creation and deletion; non-trivial: an array result with more than one distinct value (errors: an exception is raised; lifetimes: an object derived from another and more than four steps)"}

if __name__ == "__main__":
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "checks.json"), "w") as f:
        json.dump(C, f, indent=1)
        f.write("\n")
