import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook)))
G="geotiepoints/"
MI=[G+"modisinterpolator.py",G+"_modis_interpolator.pyx",G+"_modis_utils.pyx"]
SI=[G+"simple_modis_interpolator.py",G+"_simple_modis_interpolator.pyx",G+"_modis_utils.pyx"]
IN=[G+"interpolator.py",G+"geointerpolator.py"]
ML=[G+"multilinear.py",G+"multilinear_cython.pyx"]
VII=[G+"viiinterpolator.py"]
INIT=[G+"__init__.py"]
BAS=[G+"basic_interpolator.py"]

p("C01","Compiled interpolation code never accesses memory outside its arrays",
"For any arguments given to the MODIS interpolation functions (zenith-angle based and lon/lat only) and to the multilinear interpolator - any shapes, scan counts, resolutions, dtypes, memory layouts and values including NaN, infinities and huge numbers - the compiled code reads and writes only inside the arrays it was given or allocated, and performs no undefined integer or float-to-integer operation. Arguments that cannot be handled lead to a Python exception, never to a crash or to a result built from foreign memory.",
["inputs","configurations"],"all argument shapes, dtypes, layouts, resolution pairs and values, valid or not",
"The extensions are compiled with bounds checks off, so a stray access usually returns a plausible number and no test notices; tests use a handful of well-formed shapes.",
sorted(set(MI+SI+ML)),[("shape checks before the native loops","_modis_interpolator.pyx:_check_tiepoint_arrays, _simple_modis_interpolator.pyx:_check_tiepoint_arrays"),("argument checks and clipped cell index","multilinear_cython.pyx:multilinear_interpolation"),("index arithmetic of the expansion of tie points to fine pixels","_modis_interpolator.pyx:_expand_tiepoint_array*")],
["AddressSanitizer/UBSan reports of an instrumented build","index errors of a bounds-checked build of the same sources"])
p("C02","Results are fully determined by the arguments",
"Every element of every result of the interpolation functions is a function of the arguments alone: calling again with equal arguments, in the same or another process, before or after other calls, and whatever the free memory happened to contain, returns bit-identical results. In particular no element of a result is ever left uninitialised.",
["inputs","histories"],"all inputs, all earlier contents of recycled memory, all preceding calls",
"Results and work arrays are allocated uninitialised and filled piecewise; fresh pages happen to be zero in a test process, and a test that runs once cannot see a value left from before.",
sorted(set(MI+SI+ML+IN+VII+BAS)),[("every allocated element is written before it is read","np.empty in _modis_interpolator.pyx, _simple_modis_interpolator.pyx, multilinear_cython.pyx, interpolator.py")],
["bit patterns of results under different fills of allocated memory, in several processes and repetitions"])
p("C03","Interpolation reproduces the tie points",
"Wherever a requested output position coincides with a tie point, the value returned there equals the tie-point value up to floating-point accuracy (no smoothing, no shift; methods of scipy that solve iteratively are only as accurate as their solver). This holds for the generic and geographical spline and grid interpolators (eager or lazy), the multilinear interpolator, the pandas-based satellite interpolator, the VII interpolation, the AVHRR 20 km helper, and the 5 km to 1 km MODIS interpolations.",
["inputs","configurations"],"all tie-point grids (regular or not), orders, data fields, output grids containing tie positions, dtypes",
"Tests compare a few smooth fields on a few grids against stored numbers with loose tolerances; whether a tie point is hit exactly depends on grid, order, unit and dtype.",
IN+ML+BAS+VII+INIT+MI,[("splines without smoothing (s=0)","interpolator.py:Interpolator._interp/_interp1d"),("cell geometry with tie points at relative coordinate 0","_modis_interpolator.pyx:_get_coords_5km"),("barycentric weights","multilinear_cython.pyx")],
["returned values at coinciding positions"])
p("C04","Spline and grid interpolation is exact up to its order",
"Inside the tie-point grid, the generic spline interpolator with orders (rows, columns) reproduces every polynomial field of degree at most those orders, and every piecewise bilinear field when the orders are 1; the linear grid interpolator reproduces piecewise bilinear fields and its `nearest` method returns the nearest tie value. This holds for any strictly increasing tie positions, any order of magnitude of their unit, and any requested positions inside (for the grid interpolators in any order), including when the requested rows equal the tie rows.",
["inputs","configurations"],"all orders 1..5 per direction, all increasing tie grids, all fields, all fine grids",
"Unit tests check single numbers of one grid; an off-by-one in orders, swapped directions or a wrong axis shows only for particular combinations.",
IN,[("RectBivariateSpline with kx for rows and ky for columns","interpolator.py:Interpolator._interp"),("one-dimensional path when rows coincide","interpolator.py:Interpolator._interp1d"),("RegularGridInterpolator on an ij meshgrid","interpolator.py:SingleGridInterpolator.interpolate_numpy")],
["values returned for random polynomial and piecewise bilinear fields against exact evaluation"])
p("C05","Results do not depend on where on the globe the swath lies",
"Rotating all input positions on the sphere - in particular shifting longitudes across the antimeridian, using longitudes in 0..360 instead of -180..180, mirroring across the equator, or moving the swath over a pole - rotates the positions returned by the MODIS, geographical spline/grid and VII interpolations and by the AVHRR/MODIS helpers, up to rounding and the chord-versus-arc sag of neighbouring tie points. Nothing is interpolated the wrong way around the globe.",
["inputs"],"all swath placements: dateline, prime meridian, both poles, equator, 0..360 convention; all dtypes",
"Tests use a few swaths, mostly far from the seams; the seam and pole behaviour differs for single pixels lying exactly on a meridian or pole.",
IN+INIT+MI+SI+VII,[("conversion to cartesian coordinates, interpolation there and conversion back","geointerpolator.py:lonlat2xyz/xyz2lonlat, _modis_utils.pyx:lonlat2xyz/xyz2lonlat, viiinterpolator.py:_lonlat2xyz/_xyz2lonlat"),("choice of cartesian or geodetic interpolation","viiinterpolator.py:tie_points_geo_interpolation")],
["great-circle distance between rotated results and results of rotated inputs"])
p("C06","Conversion between lon/lat and cartesian coordinates is lossless",
"For all longitudes, latitudes and radii, converting to cartesian coordinates and back returns the same position (longitudes modulo 360) to floating-point accuracy, for scalars and arrays, with every setting of the latitude method and its threshold. Cartesian coordinates have the given radius and the documented axes, and longitudes returned are within [-180, 180] and latitudes within [-90, 90].",
["inputs","configurations"],"all positions including poles, antimeridian, equator, threshold latitudes; all radii, thresholds and both latitude methods; float32 and float64",
"Tests convert a handful of points; the formulas switch branch with latitude and sign, and fail only at particular points.",
[G+"geointerpolator.py"],[("forward and inverse formulas with a latitude branch","geointerpolator.py:lonlat2xyz, xyz2lonlat")],
["converted coordinates against an independent conversion"])
p("C07","Zenith-angle MODIS interpolation recovers the true pixel positions",
"For tie points and zenith angles of a MODIS-like whisk-broom scan over a sphere, the zenith-angle interpolation from 1 km to 500 m and 250 m returns the true fine pixel positions within a few metres, and from 5 km to 1 km, 500 m and 250 m within tens of metres (with 270 columns within some hundreds of metres beyond the last tie column), over the whole scan including its first and last rows and columns and wherever the swath lies. For arbitrary tie points it returns what the published CVIIRS tie-point-zone formulas give for the documented pixel geometry.",
["inputs","configurations"],"all swath placements and headings, all scans, all pixels, all resolution pairs and widths, float32/float64; arbitrary positions and zenith angles for the formulas",
"Tests compare against one real granule with a tolerance of tens of metres (or kilometres for some pairs) and do not check every resolution pair.",
MI,[("expansion/alignment coefficients, relative cell coordinates and edge extrapolation","_modis_interpolator.pyx:MODISInterpolator")],
["distance to the simulated truth", "distance to an independent implementation of the formulas"])
p("C08","Lon/lat-only MODIS interpolation recovers the true pixel positions",
"For tie points of a MODIS-like scan, the lon/lat-only interpolation from 1 km to 500 m and 250 m returns the true fine pixel positions within some tens of metres over the whole scan including edges. For arbitrary tie points it returns the bilinear interpolation of the cartesian coordinates of the scan, with rows and columns outside the tie points of the scan extrapolated linearly; likewise for finer tie points with the general function, by factors of 2 and 4.",
["inputs","configurations"],"all swath placements, scans, pixels, both target resolutions, any number of columns, float32/float64",
"Tests compare with one granule at a coarse tolerance and with one random field.",
SI,[("map_coordinates plus edge extrapolation per scan","_simple_modis_interpolator.pyx:_compute_interpolated_xyz_scan, _interpolate_xyz_250, _interpolate_xyz_500")],
["distance to the simulated truth","distance to an independent implementation"])
p("C09","Every MODIS scan is interpolated independently of the others",
"The fine pixels of a scan depend only on the tie points of that scan: interpolating scans together, one at a time, repeated or in another order gives the same positions per scan (up to rounding), and changing, corrupting or masking the tie points of one scan changes nothing in any other scan. This holds for the zenith-angle and the lon/lat-only interpolation at every resolution.",
["inputs","configurations"],"all scan counts, orders, contents (including NaN) and resolution pairs",
"Tests look at one or two scans of smooth data, where leaking across the scan border is invisible because neighbours are similar.",
sorted(set(MI+SI)),[("per-scan slices and recycled work arrays","_modis_interpolator.pyx:_interpolate_lons_lats, _simple_modis_interpolator.pyx:interpolate_geolocation_cartesian")],
["per-scan outputs of permuted, split and corrupted stacks of scans"])
p("C10","Array container and chunking never change MODIS results",
"The MODIS interpolations give equal values, dtype and shape for numpy arrays, dask arrays with any chunking (also differing between the arguments) and DataArrays holding either, and return the same kind of container as given, with the dimension names of DataArrays kept. For dask input nothing is computed before the result is, the declared shape, chunks and dtype are those of the computed result, and computing parts or several results together gives the same values.",
["inputs","configurations","schedules"],"all containers, chunk layouts, numbers of scans, resolution pairs, selections and joint computations",
"Tests use two or three chunkings of one swath; rechunking logic depends on the arithmetic of chunk sizes versus scan length.",
sorted(set(MI+SI)),[("adaptation to map_blocks, rechunking to whole scans, declared output chunks","_modis_utils.pyx:scanline_mapblocks, _rechunk_dask_arrays_if_needed, _call_map_blocks_interp")],
["computed blocks, declared metadata and the number of computations triggered"])
p("C11","Lazy grid and spline interpolation equals eager interpolation",
"For the grid and spline interpolators, plain or geographical, single or multiple, requesting chunks returns dask arrays with the declared shape, chunk layout and dtype whose computed values equal the eager result, for any requested positions (also non-uniform, non-integer, descending where eager accepts them, or not starting at zero), any chunk layout and any option. Results of different interpolators, data, options or positions stay distinct when computed together, and slicing a lazy result equals slicing the eager one.",
["inputs","configurations","schedules"],"all fine grids, chunk layouts (ints, tuples, explicit, auto), options, combinations of lazy results computed jointly",
"Tests use consecutive integer positions starting at zero and one chunk size, and compute results one at a time.",
IN,[("graph construction with chunk slices and a token","interpolator.py:AbstractSingleInterpolator.interpolate_dask, _enumerate_chunk_slices")],
["computed lazy arrays versus eager results, separately and jointly"])
p("C12","Multi-process interpolation equals single-process interpolation",
"Interpolating MODIS 1 km positions to 500 m or 250 m on several cores returns every line exactly once, in order, with the positions the single-process call gives for the same scans, for any number of scans and cores, in whatever way processes are started and when calls are made at once in several threads. The scene splits used for this are increasing multiples of the scan length that cut the swath into whole scans without losing or repeating lines.",
["inputs","configurations","schedules"],"all scan counts, core counts, start methods, and completion orders of the worker processes",
"Tests run one size with two cores; split arithmetic misbehaves for particular remainders, and completion order varies from run to run.",
INIT,[("split positions","__init__.py:get_scene_splits"),("apply_async per part, results collected in submission order","__init__.py:_multi")],
["stacked outputs with injected worker delays versus serial results; split positions for all small sizes"])
p("C13","Multilinear interpolation equals its definition everywhere",
"In one to four dimensions, for any grid bounds and sizes, any number of functions and points, in single or double precision, the multilinear interpolator returns the tensor-product linear interpolation of the surrounding grid values, and outside the grid the linear extrapolation of the outermost cell, however far the point is. Its enumerated grid is in the order in which it expects values (last dimension fastest).",
["inputs","configurations"],"all dimensions, orders >= 2, bounds (also decreasing), points inside, on, outside and far outside the grid, float32/float64",
"Each dimension has its own hand-unrolled code with up to 16 corner terms; tests use one smooth function with a loose tolerance.",
ML,[("unrolled corner formulas per dimension","multilinear_cython.pyx"),("grid enumeration","multilinear.py:mlinspace")],
["values against an independent recursive definition"])
p("C14","VII interpolation is bilinear within each scan",
"The VII interpolation returns, for every array given, the bilinear interpolation of the tie points at the pixel grid, keeping for every scan exactly the pixel rows between its own first and last tie row (none between scans) and dropping the last tie row and column. For positions it works in cartesian coordinates whenever a latitude exceeds its threshold in magnitude or longitudes span more than 180 degrees, and otherwise directly in degrees; thresholds given by the caller are honoured.",
["inputs","configurations"],"all numbers of scans, tie points per scan, factors, array contents, thresholds, numpy- or dask-backed arrays, any dimension names",
"Tests check one configuration with hand-written numbers.",
VII,[("pixel grids with gaps between scans","viiinterpolator.py:tie_points_interpolation"),("choice of coordinates","viiinterpolator.py:tie_points_geo_interpolation")],
["values and shapes against an independent implementation"])
p("C15","Inputs are never modified and memory layout does not matter",
"No interpolation function or interpolator modifies any array it is given, neither its values nor its flags, and results never share memory with inputs in a way that a later change of one changes the other. C- or Fortran-ordered, strided, reversed, offset, byte-aligned view or read-only inputs holding the same numbers give the same results.",
["inputs","histories"],"all functions, layouts and dtypes, including results mutated by the caller afterwards",
"Tests pass fresh C-contiguous arrays and never look at them again.",
sorted(set(MI+SI+ML+IN+VII+BAS+INIT)),[("copies to contiguous work arrays","np.require in the pyx files and multilinear.py"),("border filling builds new arrays","interpolator.py:Interpolator.fill_borders")],
["digests of inputs before and after every call; results across layouts"])
p("C16","Concurrent calls do not disturb one another",
"Calling any of the interpolation functions from several threads at once - sharing the same inputs, the same interpolator objects of any kind (whose borders and values are not being replaced meanwhile), or nothing - gives every caller exactly what it gets when calling alone, in arrays of its own, without data races in the compiled code; the same holds for dask's threaded and synchronous schedulers.",
["schedules","inputs"],"all interleavings of concurrent calls on shared and separate inputs and objects",
"Tests are single-threaded, while users compute dask graphs with many threads and the compiled loops release the interpreter lock.",
sorted(set(MI+SI+ML+IN+BAS)),[("all state local to the call","_modis_interpolator.pyx, _simple_modis_interpolator.pyx, multilinear_cython.pyx"),("interpolator objects that are read-only after construction","interpolator.py"),("results of an interpolation collected locally","interpolator.py:Interpolator.interpolate, basic_interpolator.py")],
["results per thread versus serial results; ThreadSanitizer reports of an instrumented build"])
p("C17","Missing tie points stay local and valid input gives valid positions",
"Finite tie points with latitudes in [-90, 90] - including repeated points, points on the poles, meridians and antimeridian, and zenith angles of zero, equal or decreasing - give finite positions with longitude in [-180, 180] and latitude in [-90, 90] for the MODIS and VII interpolations and the geographical grid interpolator (VII longitudes interpolated in degrees in the range of the tie points). For neighbouring tie points less than some hundred kilometres apart, a missing (NaN) tie-point position makes exactly the fine pixels of the cells it belongs to (and the edge pixels extrapolated from them) missing; pixels lying exactly on a tie row or column may belong to either of the adjacent cells. A missing zenith angle affects at most these pixels, and the same holds for missing VII data or positions (whose scans are documented to be interpolated as one granule, so that the first row of the next scan counts as lying on the last tie row too) unless the missing ones decide between interpolation in degrees and in cartesian coordinates. Every other pixel stays as it was up to rounding.",
["inputs"],"all positions of missing values and all degenerate but finite geometries",
"Tests use clean smooth swaths; real granules contain fill values and nadir ties.",
sorted(set(MI+SI+IN+VII)),[("guard for cells whose tie points are both at nadir","_modis_interpolator.pyx:_compute_expansion_alignment"),("cell-local weights","_modis_interpolator.pyx:_compute_fine_xyz_component, _simple_modis_interpolator.pyx")],
["finiteness, range and bitwise locality of differences"])
p("C18","Malformed input is rejected with an exception",
"Input the interpolations cannot handle - numbers of rows that are not whole scans, arguments of different shapes, unsupported widths, dimensions, dtypes or resolutions, inconsistent multilinear grids, VII arrays of differing or indivisible shape, data that does not fit the tie-point grid, unknown border names, or a wrong number of arrays given to the geographical grid and spline interpolators - raises an exception, at the latest when a lazy result is computed, for numpy, dask and DataArray input alike. It never yields a silently wrong or truncated result.",
["inputs","configurations"],"all malformed combinations of shapes, dtypes, resolutions and containers",
"Tests cover two or three malformed calls; silent acceptance shows only as plausible numbers.",
sorted(set(MI+SI+ML+VII+IN)),[("argument checks","_check_tiepoint_arrays in both MODIS pyx files, scanline_mapblocks, multilinear_interpolation, tie_points_interpolation, to_xyz, fill_borders")],
["whether a call returns or raises"])
p("C19","The pandas-based interpolator is separable linear interpolation",
"The basic satellite interpolator returns latitudes and longitudes (in that order) on the full integer grid from 0 to the last tie row and column, each the linear interpolation along columns and then rows of its own tie-point array, for any increasing integer tie positions starting at 0.",
["inputs"],"all increasing integer tie positions starting at 0 and all data",
"There is one test, with two values per field.",
BAS,[("reindex and interpolate along each axis","basic_interpolator.py:_interp_axis, _pandas_interp")],
["values and shapes against bilinear interpolation computed independently"])
p("C20","The fixed-geometry AVHRR and MODIS helpers recover true positions",
"For tie points sampled from a simulated scanning instrument at the documented pixel numbers, the fixed-geometry helpers - AVHRR 20 km to 1 km, MODIS 5 km to 1 km (positions and generic data), and MODIS 1 km to 500 m and 250 m - return the positions (or data) at the documented fine pixel numbers within the curvature error of the field between tie points, for every pixel, scan and number of scans, and wherever the swath lies. For any tie points the positions are those of interpolating the cartesian coordinates linearly along track, scan by scan, and with a cubic spline across track, extended linearly beyond the outermost tie points.",
["inputs","configurations"],"all swath placements, numbers of scans or lines, all pixels",
"Tests compare against one granule each with loose tolerances, or not at all (generic data).",
INIT+[G+"interpolator.py"],[("tie and fine pixel numbers per helper, orders 1 and 3, chunk-wise border filling","__init__.py, interpolator.py:generic_modis5kmto1km")],
["distance to the simulated truth and to exactly representable fields"])
p("C21","Results have the documented shape and the dtype of the input",
"Every interpolation returns arrays of the documented fine shape (whole multiples of scan length and width for MODIS, the requested grid for spline/grid interpolators, functions x points for the multilinear one, whole pixel grid for VII and the pandas-based one), in the documented order (longitude before latitude except for the pandas-based one). The MODIS, multilinear, grid and spline interpolators return floating-point results of the dtype of their floating-point input, lazily declared and computed alike.",
["inputs","configurations"],"all sizes, dtypes, resolutions, containers and numbers of datasets",
"Tests check shapes of a few sizes and seldom the dtype.",
sorted(set(MI+SI+IN+ML+VII+BAS+INIT)),[("allocation of results from the input dtype and resolution","*_interpolator.pyx, interpolator.py, viiinterpolator.py")],
["shape, dtype, order and container of returned objects"])
p("C22","Border filling extrapolates linearly and adds nothing inside",
"Filling borders extends the tie points to the first and last requested column and, per chunk of rows, to the first and last requested row of the chunk, by linear extrapolation from the two nearest tie points; tie points already on the border are kept and none is duplicated, and values inside are unchanged. Linear fields are therefore reproduced exactly on the whole requested grid, filling again changes nothing (when all chunks have equally many tie rows), filling both directions gives the same whichever is named first, and data of one chunk of rows never influences the extrapolated rows of another.",
["inputs","configurations","histories"],"all tie/fine grids in any unit, chunk sizes, datasets, and sequences of filling calls",
"Tests fill borders for two grids with integer units.",
IN,[("column and row extrapolation","interpolator.py:Interpolator._fill_col_borders, _fill_row_borders, _linear_extrapolate")],
["interpolated values on the full grid after filling, against exact linear extension"])
p("C23","Datasets interpolated together do not influence each other",
"When several arrays are interpolated together - by the generic spline interpolator, the multiple-dataset grid and spline interpolators, the multilinear interpolator or the VII interpolation - each result equals the result of interpolating that array alone, results come in the order of the inputs, and changing or masking one array leaves the results of the others unchanged.",
["inputs","configurations"],"all numbers, orders and contents of datasets",
"Tests use one or two datasets, usually similar ones.",
IN+ML+VII,[("loops over datasets","interpolator.py:Interpolator, AbstractMultipleInterpolator, multilinear_cython.pyx, viiinterpolator.py")],
["each result versus the single-dataset call"])
p("C24","Interpolator objects can be reused without side effects",
"An interpolator object gives the same answer for the same request however often and after whatever other requests (other output grids, options, eager or lazy, borders filled once or repeatedly, values replaced) it was used, results returned earlier never change later, and two objects never influence each other. Replacing the values of a multilinear interpolator takes effect completely, and lazy results computed later do not depend on requests made in between.",
["histories"],"all sequences of calls on one or several interpolator objects",
"Tests build an object, call it once and drop it.",
IN+ML+BAS,[("objects keep only tie points and the fitted interpolator","interpolator.py, multilinear.py, basic_interpolator.py")],
["results of random call sequences versus a fresh object"])
p("C25","Equivalent ways of asking give equal results",
"Asking for the same thing in another documented way gives the same result up to rounding: longitudes and latitudes or a pyresample definition of them for the geographical interpolators; numpy or dask arrays as data of the grid, spline and generic interpolators; one array bare or in a list, several in a list or tuple, for the generic interpolator; single interpolators or a multiple one; positions as lists, tuples or arrays of integers or floats; slices or a shape instead of explicit positions; values given when the multilinear interpolator is made or later, and calling it or its interpolate method; the MODIS function for two resolutions or the general function with these resolutions; and VII arrays holding numpy or dask arrays in any chunks under any dimension names, which results keep.",
["inputs","configurations"],"all inputs, and all pairs of documented ways to ask for the same",
"Tests use one way of asking per feature, usually with a single grid; a difference between two ways is not visible in any one of them.",
IN+MI+SI+ML+VII,[("definitions turned into cartesian coordinates","geointerpolator.py:to_xyz, GeoInterpolator.__init__"),("slices and shapes turned into positions","interpolator.py:interpolate_slices, interpolate_to_shape"),("values set later","multilinear.py:MultilinearInterpolator.set_values"),("resolutions passed on","modisinterpolator.py, simple_modis_interpolator.py")],
["results of both ways"])
p("C26","Interpolators are linear in the data and equivariant in their axes",
"The generic spline interpolator (with and without filled borders, in one and two dimensions), the grid and spline interpolators, the multilinear, VII and pandas-based interpolators are linear in the data: the result for a weighted sum of fields is the weighted sum of their results, constants stay constant. Where positions are given, results do not change with the unit, origin or direction of the positions, and exchanging the axes (with orders, positions and data) exchanges the axes of the result. Methods that are not linear by definition are excepted.",
["inputs","configurations"],"all fields, weights, grids and orders, and all affine changes and exchanges of the axes",
"Tests look at one field on one grid; wrong weights, thresholds on magnitudes, absolute tolerances and swapped axes show only for other magnitudes, units or orders.",
IN+ML+VII+BAS,[("spline fit without smoothing, knots from the positions","interpolator.py:Interpolator._interp, _interp1d, SingleSplineInterpolator"),("linear extrapolation","interpolator.py:_linear_extrapolate"),("barycentric weights","multilinear_cython.pyx")],
["results for combined fields and transformed axes"])
p("C27","Lazy results and interpolators work in other processes",
"Work can be handed to other processes the way dask does it (its processes scheduler, distributed workers): every lazy result - of the MODIS functions with dask arrays or DataArrays, of the grid, spline and geographical interpolators asked for chunks, of the VII functions - and every interpolator object, used before or not, can be serialised (cloudpickle), and what another process computes from it, even one in which nothing was done before, is bit for bit what the calling process computes.",
["inputs","configurations","histories"],"all lazy results and interpolator objects with their options and histories, computed together or alone, in worker processes reused or started for them",
"Tests compute lazy results in the process that made them, where module state, closures and cached objects are at hand; what is missing in another process shows only there.",
sorted(set(MI+SI+IN+ML+VII+BAS)),[("blocks' functions that can be imported by name","_modis_utils.pyx:scanline_mapblocks, _call_map_blocks_interp"),("methods of the interpolator bound into the graph","interpolator.py:AbstractSingleInterpolator.interpolate_dask"),("state of the objects","multilinear.py:MultilinearInterpolator, interpolator.py:Interpolator, geointerpolator.py, basic_interpolator.py")],
["answers of worker processes and fresh processes"])
p("C28","Calls leave nothing behind in the process",
"Once the caller has dropped its arguments, results and interpolator objects, nothing of a call remains: no array it was given or returned stays referred to, memory and the number of objects do not grow from call to call (nor with the number of requests to one object), and no process, thread or open file survives, also after interpolation on several cores and after rejected input (no process even while its exception is still handled). Calls and imports change no setting shared by the process (floating point error handling, random generators, warning filters, environment, working directory, module path, print options, dask and xarray configuration, denormal numbers, signal handlers), write no files and print nothing.",
["inputs","histories","configurations"],"all entry points, containers, rejected input, numbers of cores, orders of imports",
"Tests look at results of single calls; what accumulates over many calls or leaks into the process affects other code later.",
sorted(set(MI+SI+IN+ML+VII+BAS+["geotiepoints/__init__.py"])),[("results kept by objects","interpolator.py:Interpolator.interpolate"),("worker processes","__init__.py:_multi"),("import-time code","__init__.py, version.py"),("memory of the compiled code","_modis_interpolator.pyx, multilinear_cython.pyx")],
["numpy's and the C library's allocations, weak references to arguments and results, files, processes, threads, settings before and after, audit events"])
p("C29","Packages that are not required are not needed",
"With only the required packages (numpy, scipy, pandas) installed - dask, xarray, pyresample, pyproj and the like missing, one or all of them - every module except the VII interpolator can be imported, in any order, and everything interpolates numpy data (and DataArrays of numpy arrays where xarray is there without dask) to the bit as where they are installed. What does need a missing package, lazy results, raises an import error.",
["inputs","configurations"],"all calls on numpy data in processes lacking dask, xarray, geometry packages or all of them",
"The test environment has every optional package, so a dependency that crept into another code path, or another result without it, is never noticed.",
sorted(set(MI+SI+IN+ML+BAS+["setup.py"])),[("optional imports","_modis_utils.pyx:da, xr"),("import inside of the lazy branch","interpolator.py:AbstractSingleInterpolator.interpolate_dask"),("containers recognised by their attributes","geointerpolator.py, _modis_utils.pyx:scanline_mapblocks")],
["results of processes in which packages cannot be found"])
p("C30","Failed and interrupted calls have no effect",
"A call that raises - because its input is rejected, or because an exception (interrupt, out of memory) strikes at any point of it - leaves the arrays it was given, the interpolator object it was made on, results returned before, other calls and the settings of the process as they were: the same request made again, or any other valid one, gives what a fresh object or process gives. (Filling borders and replacing values have to be repeated when interrupted in between.)",
["inputs","histories","fault_sequences"],"all malformed requests in all histories of an object; exceptions at every line of and every allocation by the library",
"Tests make calls that succeed, or check that one raises, and never use what is left afterwards.",
sorted(set(MI+SI+IN+ML+VII+BAS)),[("requests checked before anything is changed","interpolator.py:Interpolator.fill_borders"),("results stored on the object","interpolator.py:Interpolator._interp, basic_interpolator.py:interpolate"),("values replaced and grid computed when asked","multilinear.py:MultilinearInterpolator")],
["answers after injected exceptions and malformed requests, bytes and flags of arguments, settings"])
with open('/verif/properties.jsonl','w') as f:
    for q in P: f.write(json.dumps(q)+"\n")
print(len(P))
import sys
try:
    import jsonschema
    sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for q in P: jsonschema.validate(q,sch)
except ImportError: print("nojs")
