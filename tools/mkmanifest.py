#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import registry

TLA = "TLA+ specification checked with TLC; "
NOTES = {
    "C01": (TLA + "small grids, all points and stored patterns explored exhaustively (MCGeo); traces of real queries validated against QueryApi/GeoModel/Grid",
            "Every recorded answer is compared with exact rational interpolation computed by TLC from the specification. Random models within small sizes plus long axes; rounding boundaries are compared only where floating point is exact."),
    "C02": (TLA + "exhaustive window machine (Hyperslab) and validated traces of interleaved histories",
            "The window machine is explored completely for small sizes; the real code is driven through histories, window sizes and several objects at once, and every answer must be the memoryless one of the specification."),
    "C03": (TLA + "all patterns of missing data on small grids explored exhaustively (MCGeo); traces of real queries with missing data validated", "As C01, with missing data in every block and points outside of models."),
    "C04": (TLA + "three layouts explored at every lattice point (MCDomain); traces of real queries at domain and block boundaries validated", "As C01, aimed at block boundaries, tops, bottoms and sides, through Query and Model."),
    "C05": (TLA + "sessions explored exhaustively and every transition replayed on the library (MCQuery); traces of queries over overlapping models validated", "Orders, overlaps, letter case and stored order of values are random within small sizes."),
    "C06": (TLA + "sessions explored exhaustively and every transition replayed on the library (MCQuery); traces of initialization, failure, cleanup and reuse validated", "Refusals are generated from absent, unreadable and incomplete files, absent values, and differing units, in every position of the list."),
    "C07": (TLA + "small surfaces explored exhaustively (MCGeo); traces of elevation queries validated", "As C01 for surfaces, including surfaces longer than the data kept in memory."),
    "C08": (TLA + "meaning of squashing and its settings explored exhaustively (MCDomain, MCQuery) and every transition replayed; traces of squashing settings and queries validated", "Settings in random order before and after initialization and between queries."),
    "C09": (TLA + "error-handler machine explored exhaustively; traces of C calls validated", "Sequences of C calls with valid, null and misused arguments; the status and message of the handler after each call must be those of the specification (message text is judged by whether it is set, replaced, kept or cleared)."),
    "C10": (TLA + "error-log machine explored exhaustively; traces with the contents of the log files validated", "Sequences of choosing files, turning logging on and off, logging, and failing queries; the files are read back after each step."),
    "C11": (TLA + "runs of the real tools recorded and validated against Apps/GeoModel", "Each run of a tool is one event: options, points file, exit status and every line of the output file."),
    "C12": (TLA + "runs of the real tool recorded and validated against Apps/GeoModel", "As C11, for the virtual borehole."),
    "C13": (TLA + "rasters written by the real tool validated, pixel by pixel, against Isosurface/GeoModel", "TLC computes the value at search points from the model specification and accepts exactly the depths that satisfy the property; profiles with features narrower than the spacing of the search points are judged only for what any search must honour."),
    "C14": (TLA + "runs of the real info tool over sequences of models, sound and flawed, validated against Verify", "Random models with any combination of flaws, alone and after other models in one run; the verdict, the flags and the units printed are judged, not the wording."),
    "C15": (TLA + "histories of model objects explored exhaustively and every transition replayed (MCMeta); models opened by the real library validated against Metadata", "Random metadata, string encodings, storage orders and subsets of absent attributes; contradictory models must be refused, not crash."),
    "C21": (TLA + "raster objects explored exhaustively and every transition replayed (MCRaster); histories of raster calls and files read back validated against Raster", "Files are read back by the library and by GDAL's Python bindings."),
    "C17": (TLA + "history machine explored exhaustively; model files written by the real application validated, value by value, against Create",
            "Data source with whole-number answers, so that every stored value identifies the point it was asked for. Random layouts (up to 13 points per axis), rotations with rational sines, with and without batches. One known finding (mirrored points with z_coordinates)."),
    "C18": (TLA + "history machine explored exhaustively; files after every run of random histories validated against Create",
            "Histories of separate, joint, repeated, refused and interrupted runs (exception or death of the process in the data source) and of updates with other configurations; interruption inside one HDF5 write is not exercised."),
    "C16": (TLA + "batch machine explored exhaustively for small grids and limits; batches made by the real generators validated against Batches",
            "Every event is one grid and limit with all batches the generator made; sizes are random, including primes, thin and large grids, and limits at the edge of one row or column."),
    "C19": (TLA + "calls on objects of the C++, C, Python and command-line interfaces side by side validated against QueryApi, and metadata read through Python against Metadata",
            "Arrays in 17 memory layouts and kinds, 0 to 60 rows, repeated rows, wrong shapes; answers of different interfaces to one question must also agree among themselves to 2e-9 where the specification allows either outcome."),
    "C23": (TLA + "small tables explored exhaustively; model files imported by the real application from generated tables, netCDF models, EarthVision models and SCEC models validated, value by value, against Create",
            "netCDF4 and the EarthVision executables are not installed: stand-ins in drivers/stubs answer from generated data, and their queries are recorded."),
    "C25": (TLA + "frames, orders of blocks and sequences of options explored exhaustively (MCDescribe); every line shown by the real info tool, over sequences of models, validated against Describe",
            "Numbers are compared to the six digits that are shown. Texts are single lines without the separators of lists. Corners are judged where the conversion to latitude and longitude is unambiguous; the conversion itself is not judged (C24)."),
    "C26": (TLA + "composition of creation and interpolation explored at every point of a lattice (MCEndToEnd); models made by the real application and queried with the real tools validated against EndToEnd",
            "Sources are integer lattices; models begin at the origin and have stacked blocks; queries use the coordinate system of the model. Values are compared to the printed digits."),
    "C22": (TLA + "handle machine explored exhaustively, every transition replayed on real handles; random histories validated against H5File", "Histories over several handles and generated files; sharing of files between handles reveals identifiers that are not released. Zero-size windows and operations on a closed handle (asserted preconditions) are not exercised."),
    "C20": (TLA + "frames explored at every lattice point (MCDomain); traces of queries in several coordinate systems validated", "Rotations with rational sines and systems that are related exactly (false origin, unit, axis order); accuracy of geodetic conversion itself is not judged (C24)."),
}
NOT_APPLICABLE = {
    "C24": "Accuracy of map projections is a numerical property of the PROJ library against published definitions; a transition-system specification has nothing to say about it.",
}


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = [json.loads(l)["id"] for l in open(os.path.join(root, "properties.jsonl"))]
    checks = []
    na = []
    for i in ids:
        if i in registry.CHECKS:
            t, n = NOTES[i]
            checks.append(dict(property=i, quick_cmd="python3 check.py " + i, thorough_cmd="VERIF_TIER=thorough python3 check.py " + i,
                               evidence_file="evidence/%s.json" % i, technique=t, level="model_checking", level_note=n))
        else:
            na.append(dict(property=i, reason=NOT_APPLICABLE.get(i, "No check has been built for it yet.")))
    m = dict(version=1, setup_cmd="python3 -m vf.build lib drv bin py", checks=checks, not_applicable=na,
             notes="No hooks are needed in /repo. Known findings and fixes: known-findings.txt.")
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
