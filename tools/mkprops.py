#!/usr/bin/env python3
"""Single source of properties.jsonl (kept as code so that the long strings stay readable)."""
import json, os
P = []
L = "libsrc/geomodelgrids/"

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=None)))

prop("C01", "Queried values interpolate the stored grid around the point",
     "A query at any point inside a model returns, for every requested value, the trilinear interpolation of the values stored at the corners of the grid cell that holds the point, in the block that holds it. This is true for uniform and for variable grid spacing along each axis, in every combination, and at a grid point it returns the stored value.",
     ["inputs", "configurations"],
     "All grids (uniform or variable spacing per axis, any size from 2 points), all stored data, all points in the domain including grid points, cell faces and domain boundaries.",
     "The tests query a handful of points in a few models whose data are mostly linear functions of position, for which many wrong cells, weights or axes still give the right number; the claim is over every grid and every point.",
     [L + "serial/Block.cc", L + "serial/Hyperslab.cc", L + "utils/Indexing.cc", L + "serial/Model.cc"],
     [("index computation for uniform and variable axes", L + "utils/Indexing.cc"), ("cell selection and trilinear weights", L + "serial/Hyperslab.cc"), ("block query", L + "serial/Block.cc")],
     observe=["values returned by a query"])

prop("C02", "A query answer never depends on earlier queries",
     "The answer to a query (values, elevation or status of that query) is a function of the point, the open models and the squashing settings only. It does not depend on which points were queried before, in which order, on the size of the window of data kept in memory, or on other query objects in the process.",
     ["histories", "configurations"],
     "All sequences of queries, all window sizes, all grid sizes relative to the window, any number of query objects used in any interleaving.",
     "Tests query fixed points in a fixed order on grids smaller than the window, so the window is loaded once and never moves; the claim is over all histories of window movements.",
     [L + "serial/Hyperslab.cc", L + "serial/Block.cc", L + "serial/Surface.cc", L + "serial/Query.cc"],
     [("reload test and placement of the in-memory window", L + "serial/Hyperslab.cc")],
     state=[("window origin", "lowest index of the loaded window along each axis", L + "serial/Hyperslab.cc")],
     observe=["values returned after different histories"])

prop("C03", "Missing data is reported as missing, never blended and never invented",
     "If any of the eight stored values surrounding a point is the missing-data value then the answer for that value is exactly the missing-data value, and other requested values at the same point are unaffected. If all surrounding stored values are data the answer is never the missing-data value. A point outside every model yields the missing-data value for every requested value, together with a warning status.",
     ["inputs", "configurations"],
     "All placements of missing data in the grids, per value; all points; all model collections.",
     "Tests have one model with missing data and a few points in it; a blend of the sentinel with data, or a sentinel leaking into other values, shows only for particular corners and axes.",
     [L + "serial/Hyperslab.cc", L + "serial/Query.cc", L + "utils/constants.hh"],
     [("missing-data test in interpolation", L + "serial/Hyperslab.cc"), ("fill before search of models", L + "serial/Query.cc")],
     observe=["values and status returned by a query"])

prop("C04", "The blocks of a model partition its topography-conforming domain",
     "A model contains a point exactly when the point's horizontal model coordinates lie within the domain and its elevation lies between the domain bottom and the top surface there (or the reference level without one). Depth is stretched linearly so that the top surface maps to the reference level and the domain bottom maps to itself, and a contained point is answered by the block whose vertical range holds the stretched coordinate, the upper one on a shared boundary.",
     ["inputs", "configurations"],
     "All stacks of blocks in any storage order, all top surfaces above and below the reference level, all points inside, outside and on each boundary.",
     "Tests use a few models with two or three blocks and points well inside each of them; boundaries, negative topography, storage order and rotated domains are each touched at most once.",
     [L + "serial/Model.cc", L + "serial/Block.cc", L + "serial/Surface.cc"],
     [("coordinate mapping and containment", L + "serial/Model.cc"), ("sorting of blocks and block search", L + "serial/Model.cc")],
     observe=["contains", "values returned by a query"])

prop("C05", "The first listed model that contains a point answers, value by value by name",
     "When several models are queried together, each point is answered entirely by the first model, in the order given, that contains it. The answer's values are in the order requested and are matched by name without regard to case, whatever the order in which each model stores them.",
     ["inputs", "configurations"],
     "All lists of models with any overlap, all requested subsets, orders and repetitions of value names, in any letter case.",
     "Tests use two or three models with one fixed order of models and values; a mix-up between models or value orders needs particular overlaps and permutations.",
     [L + "serial/Query.cc"],
     [("search over models in order", L + "serial/Query.cc"), ("map from requested names to stored values per model", L + "serial/Query.cc")],
     observe=["values returned by a query"])

prop("C06", "Initialization is all or nothing, and always explains a refusal",
     "Initializing a query succeeds only if every model file opens with complete metadata, every model has every requested value, and all models agree on the units of each requested value; otherwise it fails with an error. After a failed initialization, or after cleanup, queries are refused with an error or report no data, never answered from some of the models and never crash, and a later successful initialization behaves like the first.",
     ["histories", "fault_sequences", "configurations"],
     "All sequences of successful and failing initializations, cleanups and queries on one query object; all positions of the bad model in the list; all kinds of refusal.",
     "Tests check single failures on a fresh object and never use the object afterwards.",
     [L + "serial/Query.cc", L + "serial/cquery.cc", L + "serial/Model.cc"],
     [("initialization loop", L + "serial/Query.cc"), ("unit comparison", L + "serial/Query.cc"), ("exception to error status", L + "serial/cquery.cc")],
     state=[("open models", "models opened by the last initialization", L + "serial/Query.cc")],
     observe=["status and exceptions of initialize, query, finalize"])

prop("C07", "Elevation queries follow the first containing model's surfaces",
     "The elevation of the top of the model (or of topography/bathymetry) at a point is the bilinear interpolation of that surface in the first listed model whose domain contains the point horizontally. A model without a separate topography/bathymetry surface answers with its top surface, a model without any surface answers zero, and points outside all models answer the missing-data value with a warning.",
     ["inputs", "configurations"],
     "All surfaces (uniform or variable spacing), all combinations of surfaces present per model, all model lists and points.",
     "Tests query a few points per model with smooth surfaces; combinations of absent surfaces over several overlapping models are not covered.",
     [L + "serial/Query.cc", L + "serial/Model.cc", L + "serial/Surface.cc", L + "serial/cquery.cc"],
     [("bilinear surface query", L + "serial/Surface.cc"), ("fallback between surfaces", L + "serial/Model.cc"), ("search over models", L + "serial/Query.cc")],
     observe=["elevations and status returned"])

prop("C08", "Squashing maps the reference level onto the chosen surface and nothing below",
     "With squashing on, elevations at or below the minimum squashing elevation are queried unchanged, and elevations between it and the reference level are mapped linearly onto the interval from it up to the chosen surface of the model being considered. With squashing off the elevation is used as given. Setting a minimum elevation turns squashing on for the top surface unless another kind was already chosen, and the settings take effect in whichever order they are made.",
     ["inputs", "histories"],
     "All squashing modes, minimum elevations, orders of the setting calls before, between and after initialization and queries, all points and models.",
     "Tests use one minimum elevation on one model after initialization in one order.",
     [L + "serial/Query.cc", L + "serial/cquery.cc", L + "apps/Query.cc"],
     [("squashing in query", L + "serial/Query.cc"), ("setting of mode and elevation", L + "serial/Query.cc")],
     state=[("squashing mode", "none, top surface or topography/bathymetry", L + "serial/Query.cc")],
     observe=["values returned by a query"])

prop("C09", "The C interface reports every failure and keeps it until reset",
     "Every call through the C interface returns a status and never throws or crashes for a null handle, unreadable model, unknown option or uninitialized object; failing calls leave an error, and points outside all models leave a warning, with a message that identifies the call's problem. The status and message stay until the caller resets them or a later problem replaces them, and after a reset they are clear.",
     ["histories", "fault_sequences"],
     "All sequences of C calls over valid, null and misused arguments.",
     "Tests exercise each C call once on the success path and one error path; the status is a state machine over the whole history.",
     [L + "serial/cquery.cc", L + "utils/ErrorHandler.cc", L + "utils/cerrorhandler.cc"],
     [("status and message storage", L + "utils/ErrorHandler.cc"), ("C wrappers", L + "serial/cquery.cc")],
     state=[("status", "OK, WARNING or ERROR", L + "utils/ErrorHandler.cc"), ("message", "text of the last problem", L + "utils/ErrorHandler.cc")],
     observe=["returned status", "status and message of the error handler"])

prop("C10", "The log file holds exactly the messages logged while it was active",
     "After a log file is chosen it starts empty, and it then receives every message logged while logging is on, in order and completely, and none logged while logging is off. Turning logging off and on again keeps what was already written, and each point that a query through the C interface cannot find is logged.",
     ["histories"],
     "All sequences of choosing log files, turning logging on and off, logging, and queries that warn.",
     "Tests log one or two messages to one file.",
     [L + "utils/ErrorHandler.cc", L + "utils/cerrorhandler.cc", L + "serial/cquery.cc", L + "apps/Query.cc", L + "apps/QueryElev.cc"],
     [("log stream handling", L + "utils/ErrorHandler.cc")],
     state=[("log file", "current log destination and on/off", L + "utils/ErrorHandler.cc")],
     observe=["contents of the log files"])

prop("C11", "Command-line query tools answer every input point, once, in order",
     "The value-query and elevation-query command-line tools write exactly one line per point of the input, in input order, with the coordinates as given followed by the answers that the library gives for that point under the same models, values, coordinate system and squashing options. Invalid or incomplete command lines are refused with an error and do not write answers. The header of the output names its columns. A run that ends without an error has answered every point of the file: one that meets something that is not a point, or whose output cannot be written in full, ends with an error.",
     ["inputs", "configurations"],
     "All point files (any number of points, with or without a final newline, with something else than a point anywhere), all option combinations and option orders, outputs that fail at any byte.",
     "Tests run each tool on one small points file with a few option sets.",
     [L + "apps/Query.cc", L + "apps/QueryElev.cc", "bin/query.cc", "bin/queryelev.cc"],
     [("point loop", L + "apps/Query.cc"), ("option parsing", L + "apps/Query.cc"), ("point loop", L + "apps/QueryElev.cc")],
     observe=["output file", "exit status"])

prop("C12", "A virtual borehole samples every depth from the ground down to its limit",
     "The borehole tool writes, for a location inside the models, one row per depth from zero to the requested maximum depth in the requested increment, each with the elevation at that depth below the top of the model there and the values that a query at that point returns. For a location outside all models it reports failure and writes no rows, and an increment or depth that does not lead down is refused. The header of the output names its columns, and an output that cannot be written in full is an error.",
     ["inputs", "configurations"],
     "All locations, depth limits, increments, model lists, value lists and coordinate systems.",
     "Tests run two boreholes with round numbers.",
     [L + "apps/Borehole.cc", "bin/borehole.cc"],
     [("depth loop", L + "apps/Borehole.cc")],
     observe=["output file", "exit status"])

prop("C13", "Isosurface depths are the crossing the user asked for, to the given resolution",
     "For each raster point inside the models the isosurface tool reports, per isovalue, a depth below the requested reference surface where the value increases through the isovalue, within the vertical resolution: the shallowest, or on request the deepest, among features wider than the spacing of the search. It reports zero depth when the shallowest is sought and the top reaches the isovalue, and missing data when the isovalue is not reached above the depth limit or the point is outside the models.",
     ["inputs", "configurations"],
     "All value profiles with depth, isovalues, resolutions, depth limits, search branching factors, and raster extents.",
     "Tests use profiles that increase linearly with depth; non-monotonic profiles, isovalues on interval ends and unusual branching factors are not explored.",
     [L + "apps/Isosurface.cc"],
     [("multi-level line search up and down", L + "apps/Isosurface.cc"), ("raster loop", L + "apps/Isosurface.cc")],
     observe=["raster written"])

prop("C14", "Model verification accepts sound models and flags each kind of unsound one",
     "Verification of a model succeeds exactly when its required metadata are present, its coordinate system is valid with one unit for both horizontal axes, surfaces and blocks span the domain horizontally (uniform and variable spacing alike), block spacing is compatible with the top surface, and the blocks tile the domain vertically without gaps or overlaps. The verdict and description printed for one model, including the units of its axes, do not depend on the other models given in the same run.",
     ["inputs", "configurations", "histories"],
     "All models with any single or combined flaw, uniform or variable spacing, and all sequences of models in one run.",
     "Tests verify two good models and a few bad ones, each alone.",
     [L + "apps/Info.cc", L + "utils/CRSTransformer.cc", "bin/info.cc"],
     [("verification steps", L + "apps/Info.cc"), ("axis units", L + "utils/CRSTransformer.cc")],
     observe=["text printed"])

prop("C15", "Opening a model reports all metadata faithfully or names everything missing",
     "Opening a complete model file makes all its metadata available exactly as stored, whichever string encoding the file uses and in whatever order the model is stored. Opening a model in which any required attribute is absent fails, and the message names every absent attribute, not only the first.",
     ["inputs", "configurations"],
     "All subsets of required attributes absent, over model, surfaces and blocks, uniform and variable spacing; fixed- and variable-length strings; any number of list entries.",
     "Tests remove all or one attribute in one model.",
     [L + "serial/Model.cc", L + "serial/ModelInfo.cc", L + "serial/Block.cc", L + "serial/Surface.cc", L + "serial/HDF5.cc"],
     [("attribute checks", L + "serial/Model.cc"), ("attribute reading", L + "serial/HDF5.cc")],
     observe=["accessors after open", "error text"])

prop("C16", "Batches cover every grid point exactly once within the size limit",
     "Splitting a grid of points into batches for import yields batches that together cover every grid point exactly once, each non-empty, inside the grid, and holding no more points than the limit, and the split never fails for a positive limit.",
     ["inputs"],
     "All two- and three-dimensional grid sizes and all positive limits.",
     "Tests check about ten grid size and limit pairs; the split has many size-dependent cases.",
     ["geomodelgrids/create/utils/batch.py"],
     [("two- and three-dimensional batch iteration", "geomodelgrids/create/utils/batch.py")],
     state=[("batch index", "position in the iteration along each axis", "geomodelgrids/create/utils/batch.py")],
     observe=["index ranges of each batch"])

prop("C17", "An imported model holds the data source's values at its grid points",
     "After a model is created, each stored surface elevation and block value is what the data source gives at the georeferenced location of that grid point, with block points conforming to the stored top surface. The contents are the same whether import is done at once or in batches of any size, for uniform and variable spacing, with and without surfaces.",
     ["inputs", "configurations"],
     "All grids, spacings, origins and rotations, surfaces present or absent, and batch sizes.",
     "Tests import one linear data source with one batch size, and check block points of a few configurations; a misplaced batch or surface window needs batches that do not start at the origin.",
     ["geomodelgrids/create/core/model.py", "geomodelgrids/create/io/hdf5.py", "geomodelgrids/create/apps/create_model.py"],
     [("grid points of surfaces and blocks", "geomodelgrids/create/core/model.py"), ("writing batches", "geomodelgrids/create/io/hdf5.py")],
     observe=["contents of the model file", "points passed to the data source"])

prop("C18", "Creation steps compose, and metadata updates never touch the data",
     "Running the creation steps (domain, surfaces, blocks) separately, together, or repeatedly after an interruption gives the same model file as one complete run. Updating metadata makes all metadata match the current configuration and leaves every stored surface and block value unchanged.",
     ["histories", "crash_points", "configurations"],
     "All sequences of creation steps including repeated and interrupted ones, and all configuration changes before an update.",
     "Tests run each step once in one order on a fresh file.",
     ["geomodelgrids/create/apps/create_model.py", "geomodelgrids/create/core/model.py", "geomodelgrids/create/io/hdf5.py"],
     [("step selection", "geomodelgrids/create/apps/create_model.py"), ("storage of domain, surfaces and blocks", "geomodelgrids/create/io/hdf5.py")],
     state=[("model file", "domain attributes, surfaces, blocks and their attributes", "geomodelgrids/create/io/hdf5.py")],
     observe=["contents of the model file"])

prop("C19", "All interfaces give the same answers",
     "The C++, C, Python and command-line interfaces return the same values, elevations and outcome for the same models, options and points. The vectorized interfaces answer each row of their input independently and in order.",
     ["inputs", "histories"],
     "All models, options and point sequences, for each interface; any number and layout of input rows.",
     "Each interface has its own tests with its own few points; nothing compares them.",
     ["modulesrc/Query_wrap.cc", "modulesrc/Model_wrap.cc", "modulesrc/ModelInfo_wrap.cc", L + "serial/cquery.cc", L + "serial/Query.cc", L + "apps/Query.cc"],
     [("array conversion and row loop", "modulesrc/Query_wrap.cc"), ("array conversion and row loop", "modulesrc/Model_wrap.cc")],
     observe=["values, elevations and status per interface"])

prop("C20", "Query points are located in the model's own rotated coordinate frame",
     "A query in any coordinate system and frame gives the same answer as a query of the same physical point in the model's own coordinate system: coordinates are converted to the model's system, shifted by its origin and rotated by its y-axis azimuth. Converting a point to a system and back returns the point.",
     ["inputs", "configurations"],
     "All origins, azimuths in any quadrant, and pairs of coordinate systems (here: those related by exactly known shifts, scalings and axis orders).",
     "Tests use one azimuth and one pair of systems.",
     [L + "serial/Model.cc", L + "utils/CRSTransformer.cc"],
     [("rotation and shift", L + "serial/Model.cc"), ("coordinate conversion", L + "utils/CRSTransformer.cc")],
     observe=["values and elevations returned by queries in different frames"])

prop("C21", "Rasters written to GeoTIFF read back identical and georeferenced",
     "A raster written to a GeoTIFF file and read back has the same size, bands, labels, missing-data value, and coordinate system, the same value at every row, column and band, and a bounding box that is the extent it was written for. Where the file cannot take all of it, the write is refused, and the isosurface tool fails.",
     ["inputs", "histories", "fault_sequences"],
     "All raster sizes, band counts, value layouts and extents; all orders of the setup calls.",
     "Tests write one small raster and read one small raster.",
     [L + "utils/GeoTiff.cc", L + "apps/Isosurface.cc"],
     [("raster input and output", L + "utils/GeoTiff.cc")],
     observe=["file read back"])

prop("C22", "Stored arrays and attributes are read exactly or the read is refused",
     "Reading any in-range window of a stored array returns exactly that part of the array, and a window that is out of range or of the wrong rank, or an absent dataset, attribute or file, is refused with an error that names it. A refused or failed operation leaves the file handle usable, opening an open handle is refused, and closing is always safe. The values a window kept in memory (hyperslab) gives at a position between the points of the array, nearest or interpolated, are those the array has there, whatever was asked of it before and wherever the window has moved.",
     ["inputs", "histories", "fault_sequences"],
     "All array shapes and windows; all sequences of open, close, read and refused operations; all sequences of positions asked of a window kept in memory.",
     "Tests read one or two windows of one array and check each refusal once on a fresh handle.",
     [L + "serial/HDF5.cc", L + "serial/Hyperslab.cc"],
     [("windowed reads and range checks", L + "serial/HDF5.cc"), ("open and close", L + "serial/HDF5.cc"), ("window kept in memory", L + "serial/Hyperslab.cc")],
     state=[("file handle", "open or closed", L + "serial/HDF5.cc")],
     observe=["arrays returned", "exceptions"])

prop("C23", "Data sources for import return what they record at every grid point",
     "Values imported into a model from a data source are those the source records at the position of each grid point. A table (CSV) gives for every grid point of a block the row recorded at that position, whatever the order of the rows, the coordinate system of the table, the origin and rotation of the model, and whether the axes of the grid are uniform or variable; grid points without a row get missing data, and rows at other positions have no effect. An IRIS EMC (netCDF) model and an EarthVision model (planes, fault blocks, zones, rules) give for each grid point the values of its file or rules at that point, with missing data outside and where the file records none, and a SCEC model (lines with the numbers of a grid point along each axis, from one, and its values) gives each grid point the values on its line, with missing data for those that have none; the same for an import as a whole and in batches. What the data source tells about the model and its values (names, identifiers, history) is in the metadata of the model, after an import and after an update of the metadata alone.",
     ["inputs", "configurations"],
     "All tables, orders of rows, spacings, systems and rotations; all grids and batch sizes.",
     "Tests read one complete table in file order, and have no test of the other sources beyond their existence.",
     ["geomodelgrids/create/data_srcs/csv/datasrc.py", "geomodelgrids/create/data_srcs/iris_emc/datasrc.py", "geomodelgrids/create/data_srcs/earthvision/datasrc.py", "geomodelgrids/create/io/scec_cca.py"],
     [("lookup of rows by grid position", "geomodelgrids/create/data_srcs/csv/datasrc.py"), ("values of a netCDF model at grid points", "geomodelgrids/create/data_srcs/iris_emc/datasrc.py"), ("values of an EarthVision model at grid points", "geomodelgrids/create/data_srcs/earthvision/datasrc.py"), ("values by number of the grid point", "geomodelgrids/create/io/scec_cca.py")],
     observe=["values of the blocks and surfaces of the created model"])

prop("C24", "Geodetic transformations are accurate",
     "Coordinates converted between two coordinate reference systems agree with the published definition of those systems to within a millimetre.",
     ["inputs"],
     "All pairs of geographic and projected coordinate reference systems and all points in their areas of use.",
     "Tests convert a few points between two systems.",
     [L + "utils/CRSTransformer.cc"],
     [("delegation to the PROJ library", L + "utils/CRSTransformer.cc")],
     observe=["converted coordinates"])

prop("C25", "The info tool shows every model as it is stored",
     "For the models given, in the order given, the info tool shows the parts that the options ask for and no others: the description (texts, lists, dimensions, and the corners of the domain in latitude and longitude), the coordinate system with its units, origin and azimuth, the names and units of the values in stored order, and for every surface and every block, from the top down, its points, spacing, top and dimensions. Each is what that model's file holds, whatever models were shown before it. Asking for help shows how the tool is used and no models, and an unknown option, no models, or a file that cannot be opened ends the run with an error.",
     ["inputs", "configurations", "histories"],
     "All sound models (uniform and variable spacing, rotated frames, geographic and projected systems), all combinations and orders of options, all sequences of models in one run.",
     "Tests run the tool on two or three fixed models and compare the output with text that was recorded from it, one or two models at a time.",
     [L + "apps/Info.cc"],
     [("parts of the report and their options", L + "apps/Info.cc"), ("corners of the domain", L + "apps/Info.cc"), ("metadata of a model", L + "serial/ModelInfo.cc")],
     observe=["standard output and exit status of geomodelgrids_info"])

prop("C26", "A created model answers queries with what its data source recorded",
     "A model that the creation application imports from a data source can be opened and queried straight away: a query at the georeferenced location of a grid point returns what the source gave there, a query between grid points the interpolation of what it gave at the surrounding ones, and elevation queries those of the surfaces it gave, in the coordinate reference system of the model and in others, whatever the origin, rotation, spacing, blocks and surfaces of the model. Points outside its domain have no data, and a model whose blocks and surfaces fill the domain is found sound by the verification.",
     ["inputs", "configurations"],
     "All configurations of domain, frame, surfaces and blocks with uniform or variable horizontal spacing, all data sources, all points.",
     "Tests of the creation application and of the library use different files; no test queries a model that the application made.",
     ["geomodelgrids/create/apps/create_model.py", "geomodelgrids/create/core/model.py", "geomodelgrids/create/io/hdf5.py", L + "serial/Query.cc", L + "serial/Model.cc", L + "serial/Block.cc", L + "serial/Surface.cc"],
     [("generation of points and storage", "geomodelgrids/create/core/model.py"), ("location and interpolation of points", L + "serial/Model.cc")],
     observe=["output of the query tools for a model file that the application wrote"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
