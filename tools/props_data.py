def fill(prop):
    prop(
        "C01", "Operations never modify the objects they are given",
        "No public function, method or constructor changes an object the "
        "caller passed in (rasters, vectors, arrays, data frames, lists, "
        "dicts, xarray objects) or the raster/vector it is called on: results "
        "are new objects, and a caller can reuse every argument unchanged. "
        "Explicit copies share no mutable state with the original.",
        ["inputs", "programs"],
        "every public entry point, every argument type it accepts, every path",
        "Tests compare results, and only a handful look at an argument "
        "afterwards; the guarantee is over every operation, argument type and "
        "branch.",
        ["raster.py", "general.py", "vector.py", "rasterize.py", "io.py"],
        [("copies made before attribute or item stores",
          "raster.py set_crs, set_null_value; general.py reclassify; "
          "rasterize.py rasterize")],
        "interprocedural effect and alias analysis over the package's syntax "
        "trees",
        "Every store, in-place operator and mutating call reached from a "
        "public entry point is traced to the storage it writes; alarms when "
        "that is storage of an argument. Trusts the list of mutating and "
        "view-returning library calls.")
    prop(
        "C02", "Work deferred to the task graph is pure",
        "Every function the library hands to dask or xarray for deferred "
        "execution on chunks leaves the chunks it receives and all state "
        "shared with other tasks unchanged, and its result depends on its "
        "arguments only. Evaluating a result twice, in any order, or next to "
        "other results gives the same values.",
        ["schedules", "inputs"],
        "every schedule of the task graph and every chunk content",
        "Tests run one scheduler once per graph; an in-place write shows only "
        "when another consumer of the same block runs after it.",
        ["general.py", "focal.py", "surface.py", "zonal.py", "vector.py",
         "raster.py", "distance/proximity.py", "blocks.py"],
        [("functions passed to map_blocks, map_overlap, reductions and "
          "delayed", "general.py, focal.py, surface.py, zonal.py, raster.py")],
        "effect and alias analysis of every function handed to a deferred "
        "executor, with symbolic chunks",
        "Every hand-over site found in the source is analysed with the "
        "arguments bound there; alarms on writes into received blocks or "
        "objects that outlive the task, and on nondeterministic calls. "
        "User-supplied functions are out of scope.")
    prop(
        "C03", "Building a raster result never computes pixels",
        "Operations that return rasters, data frames or vectors derived from "
        "raster data only describe the computation: no pixel of an input is "
        "read or evaluated until the user loads, saves, plots or converts the "
        "result. Exceptions are the documented eager ones (cost distance, "
        "eager point extraction, loading, saving, region labelling without "
        "given values).",
        ["inputs", "programs"],
        "every lazy public operation, input and option combination",
        "Tests evaluate the result anyway, so they pass whether pixels were "
        "computed once at the end or already while the graph was built.",
        ["raster.py", "general.py", "focal.py", "zonal.py", "clipping.py",
         "io.py"],
        [("dask-backed datasets and map_blocks/map_overlap everywhere",
          "raster.py, general.py, focal.py, surface.py")],
        "dependence analysis from pixel data to forcing constructs",
        "Alarms when a value that depends on raster pixels reaches a forcing "
        "construct (compute, load, values, NumPy conversion, truth value) on "
        "a path from a lazy entry point, or a file is opened without chunks.")
    prop(
        "C04", "Null cells stay null",
        "Every operation that returns a raster and is not documented to fill, "
        "grow or remove nulls carries the nulls of its raster arguments into "
        "its result: a cell that is null in an input the result is computed "
        "from cell by cell (band by band where the operation reduces bands) "
        "is null in the result, and the result records a null value. "
        "Operations on several rasters give the union of their nulls.",
        ["inputs", "programs"],
        "every raster-returning operation, option and dtype, every path "
        "through the code, every pattern of nulls",
        "Tests check a few null patterns per operation with one dtype and "
        "null value; a mask dropped for one branch (unmasked first operand, "
        "integer dtype, multi-output function) is not seen.",
        ["raster.py", "general.py", "focal.py", "surface.py", "clipping.py",
         "utils.py", "distance/cost_distance.py", "warp.py"],
        [("merge_masks and per-operation mask handling", "utils.py, "
          "raster.py _apply_ufunc, general.py, focal.py"),
         ("null value burned under the mask", "raster.py make_raster_ds, "
          "burn_mask")],
        "must-coverage dataflow analysis of the mask and null value of every "
        "result raster",
        "For each operation, option variant and raster argument, 'argument "
        "null => result null' and 'argument has a null value => result has "
        "one' must be derivable on each path. Steps without a rule are "
        "assumed mask-preserving and counted.")
    prop(
        "C05", "The null value never enters a computation over cells",
        "Where an operation combines the values of several cells (windows, "
        "reductions, aggregation, zonal and group statistics, interpolation, "
        "distance searches, region labelling, mosaicking, point extraction), "
        "the value stored in null cells is never one of the operands: nulls "
        "are replaced by a neutral value or NaN, dropped, or handed over "
        "together with their mask, for every dtype and null value.",
        ["inputs"],
        "every construct that combines cells, every dtype, null value and "
        "path that reaches it",
        "The sentinel shows in a result only for some data (a null next to a "
        "valid cell, a null value that wins the max); tests use NaN or small "
        "rasters.",
        ["focal.py", "general.py", "surface.py", "zonal.py", "raster.py",
         "_mosaic.py", "distance/proximity.py", "distance/cost_distance.py"],
        [("null cells replaced before windows and reductions",
          "focal.py focal, correlate; raster.py get_raster(null_to_nan), "
          "reductions; zonal.py replace; general.py regions, dilate, erode")],
        "backward path-sensitive taint analysis of stored null values to "
        "every construct that combines cells",
        "Alarms when an input raster's pixels reach a combining construct on "
        "a path on which its null cells were not replaced, removed, or "
        "accompanied by the mask. Constructs are recognised by library name.")
    prop(
        "C06", "Null cells hold the recorded null value",
        "Wherever a cell of a result is null because an input raster is null "
        "there, the cell holds exactly the null value the result records, "
        "for every operation, option and dtype: the mask, the pixels and the "
        "recorded null value of a raster never disagree, so saving, "
        "converting and comparing with the null value find the same cells.",
        ["inputs", "programs"],
        "every raster-returning operation, every path on which the result is "
        "masked, every pattern of nulls, dtype and null value",
        "In memory the mask hides what the cells hold; only a later save, "
        "conversion or null-value change shows it, for some dtypes and null "
        "values.",
        ["raster.py", "general.py", "focal.py", "surface.py", "clipping.py",
         "distance/cost_distance.py", "warp.py"],
        [("null value burned under the mask", "raster.py _apply_ufunc, "
          "astype, set_null_value, burn_mask; general.py; clipping.py"),
         ("null value recorded on the data", "raster.py make_raster_ds, "
          "data_to_xr_raster")],
        "must-equality dataflow analysis of result pixels and recorded null "
        "value under the inputs' masks",
        "For each result raster the pixel term is shown to equal the term of "
        "its recorded null value where an input is null. Padding, stacking, "
        "region labels, northing/easting and model prediction are not "
        "analysed.")
    prop(
        "C07", "Results keep the georeference",
        "An operation that computes a raster on the grid of an input raster "
        "returns it with that raster's CRS and with its x and y coordinates "
        "(or the part of them the operation cuts out), never swapped, "
        "renumbered or dropped; and geometries built from raster cells "
        "(points, polygons, footprints) carry the raster's CRS.",
        ["inputs", "programs"],
        "every raster-returning operation except those that move to another "
        "grid (reproject, mosaic, pad), every builder and path, CRS present",
        "Tests compare values and shapes; a lost CRS or a swapped axis shows "
        "only on non-square or georeferenced rasters, later, in alignment "
        "with other data.",
        ["raster.py", "general.py", "creation.py", "surface.py", "blocks.py",
         "distance/proximity.py", "distance/cost_distance.py",
         "rasterize.py"],
        [("result builders", "raster.py data_to_xr_raster, make_raster_ds, "
          "data_to_raster_like; creation.py _build_result; general.py "
          "model_predict_raster"),
         ("geometry builders", "raster.py get_bounds-like and vectorising "
          "methods: to_points, to_polygons, bounds boxes")],
        "must-carry dataflow analysis of CRS and axis coordinates from input "
        "raster to result",
        "Alarms when a result does not carry the CRS or an axis' coordinates "
        "of the raster it is computed from on some path on which that raster "
        "has a CRS, or when geometry built from cells gets no CRS. "
        "Derivations with a step the analysis has no rule for are counted "
        "in the evidence and not judged.")
    prop(
        "C08", "Every option takes effect",
        "Every parameter a public function or method accepts influences "
        "what it returns or writes, also when all other options are left at "
        "their defaults (unless documented to act only together with "
        "another); a method hands each of its options to the function it "
        "delegates to, under the same meaning; and option values passed to "
        "the functions that run on the blocks are used there. No option is "
        "accepted and then silently ignored.",
        ["inputs", "programs"],
        "every parameter of every public function and Raster/Vector method, "
        "all values of the other options",
        "A test must set the option to a value that matters on data where "
        "it matters and compare; most options are tested at one value only, "
        "and combinations of options are not.",
        ["raster.py", "vector.py", "general.py", "focal.py", "surface.py",
         "zonal.py", "rasterize.py", "clipping.py", "warp.py", "io.py",
         "creation.py", "distance/proximity.py", "distance/cost_distance.py",
         "line_stats.py", "_mosaic.py", "_stack.py", "_padding.py"],
        [("public signatures", "all modules"),
         ("delegating methods", "raster.py, vector.py"),
         ("block functions' keywords", "surface.py, focal.py, rasterize.py, "
          "distance/proximity.py, general.py")],
        "interprocedural dependence (slicing) analysis from parameters to "
        "results, output-writing calls and block functions",
        "Shows that an option matters, not that it means the right thing. "
        "Options that only choose reporting or validation (progress bars, "
        "warnings) are excluded.")
    prop("C09", "A name selects the computation it names",
        "Wherever an operation is chosen by name (focal, local, aggregation "
        "and zonal statistics, rasterize's and mosaic's overlap resolution, "
        "distance metrics and their aliases, random distributions, "
        "remap_range's inclusivity, correlate's boundary mode, the cell "
        "corner of Raster.xy, the reductions of Raster), every documented "
        "name is accepted, runs the computation it names and no other, and "
        "any other string is rejected. min is never max, std never var, "
        "first never last, entropy is -sum p ln p, and 'left' includes the "
        "left end only.",
        ["inputs", "programs"],
        "every documented name of every operation chosen by name, all values "
        "of the other arguments",
        "A table entry is only exercised by a test that uses that name on "
        "data where the neighbouring entry would give something else; "
        "aliases, rarely used names and whole families (Raster.xy corners, "
        "reductions) are not tested here.",
        ["stat_common.py", "focal.py", "general.py", "zonal.py",
         "rasterize.py", "_mosaic.py", "distance/proximity.py",
         "creation.py", "raster.py"],
        [("dispatch tables", "_STAT_TO_FUNC, _COARSEN_*, _LOCAL_*, "
          "_CUSTOM_STAT_AGGS, _RESOLVE_KW_TO_FUNC, _DISTANCE_FUNC_MAP"),
         ("statistics kernels", "stat_common.py, zonal.py"),
         ("distance formulas", "distance/proximity.py"),
         ("corner offsets", "raster.py rowcol_to_xy")],
        "constant propagation of each name through the dispatch, then "
        "classification of the selected kernels by the structure of their "
        "value terms",
        "A computation written in a form the classifier does not know is "
        "not judged; library functions are trusted to compute what they are "
        "named after.")
    prop("C10", "Operators act on their operands, in order",
        "A Python operator or numpy ufunc on a Raster computes that ufunc of "
        "the operands' own data, left operand first: scalar - raster is not "
        "raster - scalar, a float operand is not truncated, an array or list "
        "operand is used as given, raster.bandwise pairs the bands with the "
        "values in the written order, and an in-place operator gives back "
        "the raster it was applied to.",
        ["inputs", "programs"],
        "every ufunc Raster supports (44 analysed) with every kind of other "
        "operand (Raster, the same Raster, int, float, bool, numpy, dask, "
        "xarray, list), either side, in place and bandwise",
        "Operand kind, side, ufunc and version branches multiply; the "
        "operator tests of this repository are not part of the suite that "
        "runs.",
        ["raster.py"],
        [("__array_ufunc__", "raster.py _RasterBase, "
          "BandwiseOperationAdapter"),
         ("_apply_ufunc", "raster.py")],
        "abstract interpretation of __array_ufunc__ per ufunc and operand "
        "kinds; the arguments of the resulting ufunc call are traced back "
        "to the operands through value-preserving calls",
        "The order of several outputs (divmod, modf) is not decided. The "
        "ufuncs themselves are numpy's.")
    prop("C11", "Surface operations compute the geometry they name",
        "For every gradient and cell size, the slope of a plane z = q x + s y "
        "is sqrt(q^2 + s^2) (or its arctangent in degrees), its aspect the "
        "compass direction of steepest descent (-1 where flat), its "
        "curvature 0, and its shade 255 (cos z cos slope + sin z sin slope "
        "cos(azimuth - aspect)) clipped at 0; the curvature of a paraboloid "
        "a x^2 + b y^2 on square cells is -200 (a + b); surface_area_3d is "
        "the sum of the eight triangles between a cell and its neighbours, "
        "the cell's area where flat; northing/easting are the cosine/sine of "
        "the aspect; tpi is the cell minus its neighbourhood's mean.",
        ["inputs"],
        "all gradients, cell sizes (also non-square where the operation uses "
        "both) and sun positions, as symbols",
        "The reference results the tests compare with come from one DEM with "
        "square cells, and those tests are not part of the suite that runs.",
        ["surface.py"],
        [("window kernels", "surface.py _slope, _aspect, _curv, _hillshade, "
          "_surface_area_3d"),
         ("trigonometry", "surface.py _northing_easting, tpi")],
        "extraction of each kernel's formula by abstract interpretation, "
        "then exact evaluation in a polynomial domain on parametric "
        "surfaces",
        "Rounding is not considered. A kernel rewritten with operations that "
        "have no algebraic rule (np.where, array slices) is not judged.")
    prop("C12", "Arguments outside an operation's domain are refused",
        "An argument that is outside the documented domain of an operation "
        "raises instead of giving some result: windows, radii, distances, "
        "depths, resolutions and counts that are zero or negative (or not "
        "integers where cells are counted), inverted or empty ranges, annuli "
        "and mappings, band numbers outside 1..nbands, connectivities other "
        "than 4 and 8, bounds that are not four numbers, null and fill "
        "values that are not numbers, empty lists of rasters or statistics; "
        "and arguments that do not go together: rasters of other shapes or "
        "CRS, fields the features do not have, masks of another shape than "
        "the data. The values on the boundary of the domain that are valid "
        "are accepted.",
        ["inputs"],
        "every listed operation with values from both sides of each domain "
        "boundary as constants, all other arguments symbolic",
        "Tests try one or two bad values per option; a validation that is "
        "skipped for one option combination or off by one at the boundary "
        "goes unseen, and the wrong result it lets through looks like a "
        "raster.",
        ["general.py", "focal.py", "surface.py", "raster.py", "blocks.py",
         "distance/", "zonal.py", "rasterize.py", "vector.py", "warp.py",
         "_padding.py", "_mosaic.py", "_stack.py", "creation.py"],
        [("domains", "focal.get_focal_window, general._get_footprint, "
          "general._normalize_mappings, surface.tpi, blocks._normalize_depth, "
          "Raster.get_bands, proximity._proximity_analysis"),
         ("relations", "blocks._check_*, cost_distance_analysis, zonal_stats, "
          "_padding._resolve_bounds")],
        "partial evaluation: each entry is abstractly interpreted with the "
        "argument as a constant; a raise must be reached on every path of "
        "the bad run that passes the other validations, and not in the good "
        "runs; for relations, a raise must be guarded by a comparison of the "
        "two arguments (dependence analysis)",
        "A validation whose condition cannot be evaluated for the constant "
        "(membership in GDAL's enumerations, try/except conversions) is "
        "counted as not decided.")
    prop("C13", "Block-wise results do not depend on the chunk boundaries",
        "However a raster is chunked, an operation computes the same cells: "
        "an operation run with overlap reads no cell farther away on an axis "
        "than blocks overlap on that axis, computes every cell that is kept "
        "when the overlap is trimmed, never reads beyond its block, is given "
        "the coordinates of its own block, does not mix bands by overlap, "
        "and sees null (or the value nulls are replaced with, or the edge "
        "mode that was asked for) beyond the raster's edge; an operation run "
        "without overlap reads only the row and column it writes and takes "
        "no statistic over a block; and an operation that combines bands "
        "gets all of them in one block.",
        ["inputs", "schedules"],
        "every function the package hands to dask's map_blocks and "
        "map_overlap, all block sizes, all kernel shapes up to 5 x 5 (odd "
        "and even), sampled distances and cell sizes",
        "Tests use small rasters with one chunk layout and mostly square "
        "kernels; a cell at a chunk boundary that sees one row too few only "
        "shows for particular chunkings.",
        ["focal.py", "surface.py", "general.py", "distance/proximity.py"],
        [("window kernels", "focal._focal_chunk, focal._correlate2d_chunk, "
          "surface.* kernels"),
         ("overlap", "focal._focal, focal._correlate, "
          "general._erosion_or_dilation_filter, "
          "proximity._proximity_analysis"),
         ("bands", "general._local, general.model_predict_raster")],
        "interval analysis of the index expressions in every block function "
        "(relative to the cell written, as linear forms over loop variables "
        "and block sizes) compared with the overlap term of the call",
        "Data-dependent indices (the proximity scan, coarsen) and functions "
        "given by the user are not judged; the great-circle overlap is only "
        "checked for where its cell width is taken.")
    prop("C14", "Rows go with y and columns with x",
        "Wherever the library computes with positions, sizes, coordinates, "
        "cell sizes, chunks or overlaps along an axis, the quantity of the "
        "row (y) axis is used for rows and that of the column (x) axis for "
        "columns: in array indices and shapes, grids, affine transforms, "
        "bounds, points and boxes built from coordinates, per-axis overlaps "
        "and chunks, bounds checks, and arguments passed between functions; "
        "and pairs are returned in their documented order (Raster.xy gives "
        "x, y; Raster.index gives row, column; bounds are minx, miny, maxx, "
        "maxy). Rasters with unequal height and width, cell sizes, chunk "
        "sizes or overlaps are treated like square ones.",
        ["inputs"],
        "every function of the package; all raster shapes, cell sizes, chunk "
        "layouts and overlaps",
        "Tests mostly use square rasters, cells, chunks and windows, for "
        "which swapped axes give the same result.",
        ["blocks.py", "raster.py", "_grids.py", "distance/proximity.py",
         "zonal.py", "line_stats.py", "surface.py", "general.py"],
        [("block information", "blocks.geo_block_infos, "
          "blocks.GeoBlockInfo, blocks._ensure_chunks_for_overlap"),
         ("cells and coordinates", "raster.Raster.xy, index, bounds, "
          "get_chunked_coords, to_quadrants, raster._extract"),
         ("kernels", "surface.*, general._remap_values, "
          "proximity._compute_proximity")],
        "abstract interpretation of every function with the axis each value "
        "belongs to (an axis type system with inferred function summaries)",
        "A value whose axis does not follow from a shape, chunks, location, "
        "coordinate, bounds, transform or a documented parameter is not "
        "judged.")
    prop("N01", "Rasters and vectors survive a round trip through a file",
        "Saving a raster or vector and opening it again gives the same "
        "values, mask, null value, CRS, transform and band names for every "
        "format that can hold them.",
        ["inputs", "histories"], "all formats, dtypes and sizes",
        "Tests write a few small files per format.", ["io.py", "vector.py"],
        [("readers and writers", "io.py, vector.py Vector.save")], "", "",
        na="What is written and read back is decided inside GDAL, netCDF and "
        "zarr; the source only shows the arguments passed to them (C07 and "
        "C08 check that CRS, null value and options reach them).")
    prop("N02", "Cost distance finds least-cost paths",
        "Every cell's accumulated cost is the minimum over all paths to a "
        "source, the traceback leads to that source and the allocation names "
        "it.",
        ["inputs"], "all cost surfaces and sources",
        "Tests compare a few small surfaces.", ["distance/cost_distance.py"],
        [("search", "distance/cost_distance.py "
          "_cost_distance_analysis_core")], "", "",
        na="Optimality of a heap-driven search is an inductive property of "
        "data held in the heap; no dataflow or shape domain in reach "
        "expresses it. The pairing of moves with codes and lengths and the "
        "treatment of nulls are checked by C09 and C05.")
    prop("N03", "Statistics are accurate",
        "Reductions, focal, local and zonal statistics agree with exact "
        "arithmetic up to the rounding of the documented dtype.",
        ["inputs"], "all values, sizes and dtypes",
        "Tests compare moderate values.",
        ["stat_common.py", "zonal.py", "raster.py"],
        [("kernels", "stat_common.py")], "", "",
        na="Accumulated rounding depends on the number and order of the "
        "values, which only exist at run time; C05 decides which cells take "
        "part and C09 which statistic runs.")
    prop("N04", "Proximity finds the nearest target",
        "Each cell's distance, direction and allocation refer to its nearest "
        "target within max_distance.",
        ["inputs"], "all target layouts",
        "Tests compare a few layouts.", ["distance/proximity.py"],
        [("line scans", "proximity._process_proximity_line")], "", "",
        na="The four scans propagate candidates through data-dependent "
        "indices, and the propagation is itself approximate for some "
        "layouts; C13 decides the overlap, C05 the nulls and C09 which "
        "result is returned.")
    prop("N05", "Resampled values are those of the chosen method",
        "reproject, mosaic and align give the values of the resampling "
        "method that was asked for.",
        ["inputs"], "all grids and methods",
        "Tests compare a few grids.", ["warp.py", "_mosaic.py"],
        [("resampling", "warp.py reproject")], "", "",
        na="The interpolation runs in odc-geo and GDAL; the source shows only "
        "that the method is handed over, which C08 decides.")
