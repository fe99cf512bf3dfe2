"""What each check runs: build variants with the number of worker processes, and what its evidence says."""

CHECKS = {}


def check(prop, variants, technique, level_note, rule, **kw):
    CHECKS[prop] = dict(variants=variants, technique=technique, level_note=level_note, rule=rule, **kw)


check("C13", {"opt": 8}, must_see=["multilinear 1d", "multilinear 2d", "multilinear 3d", "multilinear 4d"],
      technique="runtime monitoring: reference-model oracle on recorded calls of the compiled code, generated workload",
      level_note="Held on the generated calls; trusts the 15-line recursive reference and its rounding bound.",
      rule="A case is a random grid (bounds, orders, dimension), random values and points inside, on grid lines, outside "
           "and far outside; its results are compared with an independent recursive definition within a rounding bound. "
           "Non-trivial: at least one value compared; distinct by digest of all arguments.",
      assumptions=["grids of at most 83000 nodes and 140000 points per call",
                   "deviation allowed: first-order rounding bound of the formula in the given precision"])


REF = "runtime monitoring: "
check("C07", {"opt": 8}, must_see=["zenith-angle 1000m->250m", "zenith-angle 1000m->500m", "zenith-angle 5000m->1000m",
                                   "zenith-angle 5000m->500m", "zenith-angle 5000m->250m"],
      technique=REF + "oracle over recorded calls: simulated instrument truth and independent implementation of the formulas",
      level_note="Held on the generated swaths. Trusts the instrument simulation and the numpy transcription of the CVIIRS "
                 "formulas; single precision is only bounded to about 12 m.",
      rule="A case is one call on tie points of a simulated scanner over a sphere, or on wiggly tie points with arbitrary "
           "zenith angles, at random places (often poles, antimeridian, formula thresholds). Every fine pixel is compared. "
           "Distinct by digest of the arguments.",
      assumptions=["spherical earth of the library's radius", "up to 300 scans per call (5 km to 1 km)",
                   "pixels whose expansion coefficient is undetermined in the given precision are left out (counted)"])
check("C08", {"opt": 8}, must_see=["lon/lat only 1000m->250m", "lon/lat only 1000m->500m",
                                   "definition compared: lon/lat only 500m->125m", "definition compared: lon/lat only 250m->125m"],
      technique=REF + "oracle over recorded calls: simulated instrument truth and independent bilinear definition",
      level_note="Held on the generated swaths. Trusts the instrument simulation and a numpy definition; single precision "
                 "is only bounded to about 12 m.",
      rule="A case is one call on tie points of a simulated scanner, or on a wiggly grid of any width, at random places. "
           "Every fine pixel is compared. Distinct by digest of the arguments.",
      assumptions=["up to 400 scans or 5416 columns per call"])
check("C09", {"opt": 8}, must_see=["zenith-angle 5000m->250m", "lon/lat only 1000m->500m", "scans sharing with the scan before: all but one"],
      technique=REF + "metamorphic oracle over recorded calls (scans alone, permuted, beside corrupted neighbours)",
      level_note="Held on the generated stacks of scans; leaks smaller than rounding (0.1 mm / 8 m in single precision) are "
                 "not seen, but scans lie at different places of the globe so that leaks are large.",
      rule="A case is a stack of 2-6 scans, each somewhere else on the globe, interpolated together and alone, permuted, "
           "or with one scan corrupted. Distinct by digest of the arguments.")
check("C17", {"opt": 8}, must_see=["pixels that had to be missing", "positions checked for validity", "geo grid interpolate"],
      technique=REF + "online range/finiteness monitor and locality oracle over recorded calls, hostile finite and missing values",
      level_note="Held on the generated inputs.",
      rule="A case is a call on tie points with missing values (patterns: single, row, column, corner, block, scattered), "
           "compared with the call without, or on degenerate finite tie points. Distinct by digest of the arguments.",
      assumptions=["neighbouring tie points at most a few tens of kilometres apart", "zenith angles at most 66 degrees"])
check("C10", {"opt": 8}, must_see=["dask results compared", "DataArray results compared", "jointly computed results compared",
                                   "blocks compared with their declaration"],
      technique=REF + "differential oracle between containers, read-counting sources, declared-metadata monitor",
      level_note="Held on the generated containers and chunk layouts; dask graphs run with the synchronous and threaded "
                 "schedulers.",
      rule="A case is a stack of scans given as numpy and as dask arrays / DataArrays with random chunks (whole scans, parts "
           "of scans, single rows, differing between arguments, several column chunks), computed jointly, separately, in "
           "part or in threads. Distinct by digest of arguments and chunk layout.")
check("C05", {"opt": 8}, must_see=["zenith-angle 1000m->250m", "lon/lat only 1000m->500m", "GeoGrid", "GeoSpline",
                                   "GeoInterpolator", "vii geo", "vii: in cartesian coordinates", "vii: in degrees",
                                   "metop20kmto1km", "modis5kmto1km", "swaths moved onto: north pole",
                                   "swaths moved onto: antimeridian", "transformation: 0..360"],
      technique=REF + "metamorphic oracle over recorded calls (the same swath moved over the sphere)",
      level_note="Held on the generated swaths and movements; deviations below the sag/rounding bound (millimetres to "
                 "hundreds of metres depending on the spacing of the tie points) are not seen.",
      rule="A case is a swath and a movement of the sphere (random rotation, onto a pole, the antimeridian, Greenwich, a "
           "latitude where formulas change, longitudes 0..360, mirror images); moved results are compared with results of "
           "moved tie points at every pixel. Distinct by digest of the arguments.",
      assumptions=["allowed: three times the distance of the interpolated vector from the sphere, plus rounding"])
check("C06", {"py": 8}, must_see=["lonlat2xyz", "xyz2lonlat", "positions at a pole", "positions on the antimeridian"],
      technique=REF + "round-trip and reference oracle over recorded calls",
      level_note="Held on the generated positions; allowed rounding follows the conditioning of the latitude formula in use.",
      rule="A case is a set of positions (scalars and arrays; poles, seams, thresholds, very small angles, any longitude "
           "range) with random radius, threshold and method. Distinct by digest of the arguments.")
check("C14", {"py": 8}, must_see=["vii data", "vii positions", "vii: in degrees", "vii: in cartesian coordinates"],
      technique=REF + "reference-model oracle over recorded calls",
      level_note="Held on the generated tie points; trusts a numpy definition of the pixel grid, the bilinear interpolation "
                 "and the choice between degrees and cartesian coordinates.",
      rule="A case is one call with random scan geometry, several arrays, numpy or dask content, or positions at the decision "
           "thresholds. Every pixel is compared. Distinct by digest of the arguments.")
check("C19", {"py": 8}, must_see=["basic interpolate"],
      technique=REF + "reference-model oracle over recorded calls",
      level_note="Held on the generated grids; trusts a numpy definition.",
      rule="A case is one interpolator on random increasing integer positions from 0 and random data. Distinct by digest.")
check("C20", {"py": 8}, must_see=list(["metop20kmto1km", "modis5kmto1km", "modis1kmto500m", "modis1kmto250m",
                                        "generic_modis5kmto1km"]),
      technique=REF + "simulated-instrument truth and reference oracle over recorded calls",
      level_note="Held on the generated swaths. Trusts the instrument simulation; near the swath edges only the linear "
                 "extrapolation error of the helpers is allowed.",
      rule="A case is one call on simulated tie points at a random place (positions), or on fields with known fine values "
           "(generic data). Every fine pixel is compared. Distinct by digest of the arguments.")
check("C22", {"py": 8}, must_see=["fill_borders", "filled again", "chunks changed without effect on the others",
                                   "tie points on the border kept", "chunks with other tie rows than the first", "many chunks"],
      technique=REF + "reference-model and metamorphic oracles on the state of the interpolator after recorded calls",
      level_note="Held on the generated grids (equal numbers of tie rows per chunk); reads the tie_data, row_indices and "
                 "col_indices attributes.",
      rule="A case is one interpolator with random tie and fine grids in one to seven chunks of rows (units from 1e-4 to 1e4, "
           "ties on or off the border) and random, linear or foreign data. Distinct by digest of the arguments.",
      assumptions=["every chunk has the same number of tie rows"])
check("C03", {"opt": 8}, must_see=["tie points looked at", "lazy", "eager", "metop20kmto1km", "modis5kmto1km", "vii positions",
                                   "multilinear interpolate", "basic interpolate", "zenith-angle 5000m->1000m",
                                   "grids of many tie points: spline", "grids of many tie points: vii data"],
      technique=REF + "identity oracle over recorded calls (results at the tie positions against the tie values)",
      level_note="Held on the generated grids; splines of order up to 5 with spacing ratios up to 5.",
      rule="A case is one interpolator with random tie positions, orders, options and data, asked for positions that include "
           "the tie positions. Distinct by digest of the arguments.")
check("C04", {"py": 8}, must_see=["Interpolator.interpolate", "SingleSpline.interpolate", "SingleGrid.interpolate",
                                   "requested rows equal to the tie rows", "nearest values compared", "positions in no order"],
      technique=REF + "exact-solution oracle over recorded calls (polynomial and piecewise bilinear fields)",
      level_note="Held on the generated grids; rounding allowed grows with the order (1e-6 relative at order 5).",
      rule="A case is a random polynomial (or random nodes for order 1) on random tie positions (regular or not, integer or "
           "not, any unit) and random requested positions. Distinct by digest of the arguments.")
check("C11", {"py": 8}, must_see=["single grid lazy", "single spline lazy", "multiple grid lazy", "multiple spline lazy",
                                   "geo grid lazy", "geo spline lazy", "interpolate_to_shape", "results computed together",
                                   "order descending"],
      technique=REF + "differential oracle between lazy and eager calls, declared-metadata monitor",
      level_note="Held on the generated requests and chunk layouts; synchronous and threaded schedulers.",
      rule="A case is an interpolator, options, positions and a chunk layout; lazy results (whole, sliced, by block, computed "
           "together with those of similar interpolators) are compared with eager ones. Distinct by digest.")
check("C21", {"opt": 8}, must_see=["modis numpy", "modis dask", "modis dataarray", "modis lazy dataarray", "lazy",
                                   "vii positions", "basic interpolate", "generic_modis5kmto1km", "metop20kmto1km",
                                   "multilinear interpolate", "values in the other byte order"],
      technique=REF + "declared-metadata and type monitor over recorded calls",
      level_note="Held on the generated calls.",
      rule="A case is one call of one interpolation with random geometry, dtype and container; shape, dtype, declaration and "
           "order of results are checked. Distinct by digest.")
check("C23", {"opt": 8}, must_see=["Interpolator.interpolate", "multiple grid", "multiple spline", "multilinear interpolate",
                                   "vii data", "generic_modis5kmto1km", "compared beside a changed array",
                                   "compared beside an array with missing values", "views of one buffer"],
      technique=REF + "metamorphic oracle over recorded calls (together, alone, permuted, beside corrupted arrays)",
      level_note="Held on the generated sets of arrays; deviations below 1e-11 relative are not seen.",
      rule="A case is a set of arrays of very different magnitude, interpolated together, alone, permuted, and with one of "
           "them corrupted or masked. Distinct by digest.")
check("C24", {"opt": 8}, must_see=["single grid", "single spline", "multiple grid", "geo spline", "fill_borders",
                                   "lazy results computed later", "returned arrays watched", "set_values",
                                   "histories with borders filled repeatedly", "basic interpolate",
                                   "grids of reused objects"],
      technique=REF + "history monitor: every answer of a reused object against a fresh object, returned arrays watched",
      level_note="Held on the generated histories of up to a dozen steps on two objects.",
      rule="A case is a random sequence of requests, options, border fillings and replaced values on two objects; each answer "
           "is compared with that of a fresh object and all returned arrays are watched to the end. Distinct by digest.")
check("C15", {"opt": 8}, must_see=["subject: zenith-angle", "subject: lon/lat only", "subject: multilinear", "subject: vii positions",
                                   "subject: geo grid", "subject: Interpolator borders", "subject: basic", "subject: metop20kmto1km",
                                   "layout: unaligned", "layout: read-only", "layout: reversed", "container: lazy DataArray", "odd values: signed", "odd values: missing"],
      technique=REF + "memory and flag monitor around recorded calls, differential oracle between layouts",
      level_note="Held on the generated calls; the monitor compares the whole memory the arguments live in.",
      rule="A case is one entry point with its arguments in random memory layouts; memory and flags are compared before and "
           "after, results with those of plain copies, and results must not overlap arguments. Distinct by digest.")
check("C25", {"opt": 8}, must_see=["positions from a definition", "positions from dask arrays", "slices", "shapes", "positions as list",
                                   "arrays as bare", "arrays as tuple", "arrays as dask arrays", "single and multiple",
                                   "values given later", "general MODIS function: angle", "general MODIS function: simple",
                                   "vii holding dask", "slices of fractional positions",
                                   "integers and fractions in one list"],
      technique=REF + "differential oracle between equivalent calls",
      level_note="Held on the generated pairs of calls; both ways being wrong alike is left to the other checks.",
      rule="A case is one request made in the plain way and in another documented way (definitions, dask data, lists, integers, "
           "slices, shapes, bare arrays, single or multiple objects, values given later, general MODIS function, dimension names); "
           "the results are compared. Distinct by digest of the arguments.",
      assumptions=["slices with start and stop", "32-bit positions are whole numbers"])
check("C26", {"opt": 8}, must_see=["superposition: generic", "superposition: generic 1d", "superposition: generic filled",
                                   "superposition: single grid", "superposition: multiple spline", "superposition: multilinear",
                                   "superposition: vii", "superposition: basic", "axis: unit", "axis: origin", "axis: mirrored",
                                   "axes exchanged: generic", "axes exchanged: generic 1d", "axes exchanged: multilinear",
                                   "hundreds of thousands of requested values"],
      technique=REF + "metamorphic oracle over recorded calls (sums of fields, axes moved, mirrored and exchanged)",
      level_note="Held on the generated fields and axes; the rounding allowed grows with the order of the splines.",
      rule="A case is one interpolation of random fields, compared with that of their weighted sum, negative and constants, or with "
           "that on axes in another unit, from another origin, reversed or exchanged. Distinct by digest of the arguments.",
      assumptions=["units up to a factor of 8000 and origins up to 200 units away"])
check("C01", {"asan": 6, "bounds": 2}, optional=("bounds",),
      must_see=["zenith-angle: returned", "zenith-angle: raised", "lon/lat only: returned", "lon/lat only: raised",
                "multilinear 1d: returned", "multilinear 2d: returned", "multilinear 3d: returned", "multilinear 4d: returned",
                "multilinear 3d: raised"],
      technique=REF + "AddressSanitizer + UndefinedBehaviorSanitizer build and bounds-checked build, hostile generated arguments",
      level_note="Held on the generated arguments; arrays beyond 2^31 elements are not explored. Foreign memory inside one "
                 "allocation is only noticed by the bounds-checked build.",
      rule="A case is one call with valid or malformed arguments (shapes, dtypes, layouts, containers, resolutions, values from "
           "NaN to huge). Sanitizer reports, crashes and index errors are violations; exceptions are not. Distinct by digest.",
      assumptions=["at most a few million elements per array"])
check("C02", {"opt": 4},
      must_see=["subject: zenith-angle", "subject: lon/lat only", "subject: multilinear", "subject: vii positions", "subject: geo grid",
                "subject: Interpolator borders", "subject: basic", "subject: metop20kmto1km", "results compared between processes",
                "missing or infinite points", "arrays with missing values: multilinear",
                "results of requests alike compared between processes"],
      technique=REF + "differential monitor of result bits between repetitions and processes with perturbed allocators and histories",
      level_note="Held on the generated calls; an uninitialised element is noticed if it is part of a result and recycled or "
                 "perturbed memory differs from what was there before.",
      rule="A case is one entry point called three times in one process, memory dirtied in between, and once in each of three "
           "processes that fill allocated memory with different bytes and have other histories and hash seeds; or "
           "a family of requests alike, asked in one order here and another there. Distinct by digest.")
check("C12", {"py": 4}, must_see=["splits checked", "modis1kmto500m on several cores", "modis1kmto250m on several cores",
                                   "scans modulo cores: 0", "scans modulo cores: some", "scans modulo cores: fewer than cores",
                                   "start method: spawn", "start method: forkserver", "calls on several cores at once"],
      technique=REF + "differential oracle and conservation checker, delays injected into the worker processes",
      level_note="Held on the generated swaths; completion orders come from injected delays of up to 0.3 s.",
      rule="A case is a swath of 1-9 scans at different places and 2-9 cores with delays injected into the forked workers, two or three "
           "calls in a program that has processes started by spawn or forkserver (one after the other, or at once in threads), or all "
           "splits of up to 40 scans of one length for 16 numbers of cores. Distinct by digest.")
check("C16", {"opt": 4, "tsan": 2}, optional=("tsan",),
      must_see=["shared inputs: zenith-angle", "shared inputs: lon/lat only", "shared inputs: multilinear", "shared object: multilinear",
                "shared object: geo spline", "own inputs: different entry points", "schedulers compared", "calls overlapping another one"],
      technique=REF + "differential monitor of concurrent against lone calls under scheduling stress, ThreadSanitizer build",
      level_note="Held on the schedules that occurred (switch interval 1 microsecond, random start delays); ThreadSanitizer sees the "
                 "accesses of the compiled extensions, not those of numpy or scipy.",
      rule="A case is 2-8 threads calling one or several entry points on shared or own inputs, making requests on one shared object, "
           "or computing dask graphs; the bits of every result are compared with those of a lone call. Distinct by digest.")
check("C18", {"opt": 6},
      must_see=["rejected: partial scans", "rejected: different shapes", "rejected: different numbers of scans", "rejected: dimensions",
                "rejected: dtype", "rejected: width", "rejected: resolution", "rejected: multilinear number of values",
                "rejected: vii indivisible", "rejected: vii differing shapes", "rejected: unknown border",
                "rejected: number of geographical arrays", "malformed MODIS input as dask", "malformed MODIS input as lazy DataArray"],
      technique=REF + "outcome monitor (exception or result) around calls with generated malformed arguments",
      level_note="Held on the generated malformed arguments of the listed kinds.",
      rule="A case is one call whose arguments are malformed in one way (scans, shapes, dimensions, dtypes, widths, resolutions, "
           "inconsistent grids, names, numbers of arrays) in one container; it must raise. Distinct by digest.")
check("C27", {"opt": 6},
      must_see=["lazy result: zenith-angle", "lazy result: lon/lat only", "lazy result: geo grid", "lazy result: multiple spline",
                "lazy result: vii positions", "sent object: multilinear used", "sent object: multilinear", "sent object: GeoInterpolator used",
                "sent object: geo spline", "sent object: function angle", "results of worker processes compared",
                "results of fresh processes compared"],
      technique=REF + "differential monitor of result bits between the calling process, dask's worker processes and fresh processes",
      level_note="Held on the generated results and objects; sent with dask's serialisation (cloudpickle) between processes of one machine.",
      rule="A case is a set of lazy results or interpolator objects with requests, serialised before anything is computed, computed by "
           "dask's processes scheduler or in a process started for them, and compared with what this process computes. Distinct by digest.",
      assumptions=["same interpreter and libraries in all processes"])
check("C28", {"opt": 6},
      must_see=["leaks: " + n for n in ("zenith-angle", "lon/lat only", "multilinear", "geo grid", "GeoInterpolator borders", "vii positions", "basic")]
      + ["calls with large results", "objects asked many times", "rejected input leaving nothing behind",
         "several cores leaving nothing behind: valid", "several cores leaving nothing behind: rejected", "imports in fresh processes",
         "calls in threads", "nothing left while an exception is handled", "ever different requests: lazy grid", "ever different requests: GeoInterpolator", "settings compared with processes started by spawn",
         "settings compared with processes started by forkserver"],
      technique=REF + "allocation, reference, resource and process-state monitors around calls; audit hook; imports in fresh processes",
      level_note="Held on the generated calls and the settings listed in vlib/state.py; what numpy, scipy, dask and xarray keep "
                 "themselves after a warm-up is left out.",
      rule="A case is six calls of one entry point (or twelve of one object, or eighty ever different requests) on varying data after a warm-up, one rejected call, one "
           "call on several cores, calls in six threads at once or the imports in a fresh process, with everything dropped by the caller; what stays allocated, "
           "referred to, open, running or changed is a violation. Distinct by digest.")
check("C29", {"opt": 4},
      must_see=["imports " + w for w in ("without dask", "without xarray and dask", "without geometry packages", "bare")]
      + ["results compared with processes lacking packages", "DataArrays of numpy arrays", "missing package reported"],
      technique=REF + "differential monitor of result bits between complete processes and ones in which packages cannot be found",
      level_note="Held on the generated calls and four sets of missing packages; the VII interpolator, which needs xarray and dask, is left out.",
      rule="A case is one call on numpy data (or DataArrays of numpy arrays) made here and in a process that cannot find dask, xarray "
           "and/or the geometry packages, a request for chunks there, or the imports alone. Distinct by digest of the arguments.",
      assumptions=["a missing package is simulated by import finders that do not find it"])
check("C30", {"opt": 6},
      must_see=["object: " + n for n in ("single grid", "multiple spline", "geo grid", "multilinear", "Interpolator", "GeoInterpolator", "basic")]
      + ["interrupted object: multilinear", "interrupted object: GeoInterpolator", "interrupted function: zenith-angle",
         "interrupted function: vii positions", "interrupted at a line", "interrupted by an allocation", "malformed requests rejected",
         "arguments of failed calls compared", "rejected input compared"],
      technique=REF + "fault injection (exceptions at lines and allocations, malformed requests); oracles: fresh objects, argument bytes, process settings",
      level_note="Held on the generated faults; faults inside of numpy, scipy, dask and xarray and between machine instructions of the "
                 "compiled code are not injected, and filling borders is not interrupted.",
      rule="A case is an object with a history of valid and malformed requests, or requests and function calls interrupted by an "
           "exception at a random line or allocation; afterwards arguments, later answers and settings are compared. Distinct by digest.")
